// Bounded contract run for C16: block-induced subgraphs (parallel, lazy, sequential in place), copying sub-partitions back, extending partitions.
#include "graphs.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/subgraph_extractor.h"
#include "kaminpar-shm/partitioning/helper.h"
#include "kaminpar-shm/partitioning/partition_utils.h"
#undef V
#undef C
#include "kaminpar-common/environment.h"
namespace kaminpar { const std::string_view Environment::GIT_SHA1 = "", Environment::GIT_MODIFIED_FILES = "", Environment::HOSTNAME = ""; }
using namespace kg;
typedef std::vector<std::pair<u32, i32>> Adj;
static Adj sorted(Adj a) { std::sort(a.begin(), a.end()); return a; }
// s is the subgraph of h induced by the given nodes, node i of s being nodes[i]
static void induced(const HG &h, const Graph &s, const std::vector<u32> &nodes, const std::string &how) {
  KCHECK(s.n() == nodes.size(), how, ": ", s.n(), " nodes, the block has ", nodes.size()); if (s.n() != nodes.size()) return;
  std::map<u32, u32> id; for (u32 i = 0; i < nodes.size(); ++i) id[nodes[i]] = i; HG x = host(s); u64 m = 0; i64 tw = 0, te = 0;
  for (u32 i = 0; i < nodes.size() && !kvc::g_fails; ++i) {
    Adj want; for (auto [v, w] : h.adj[nodes[i]]) if (id.count(v)) { want.push_back({id[v], w}); ++m; te += w; } tw += h.nw[nodes[i]];
    KCHECK(x.nw[i] == h.nw[nodes[i]], how, ": node ", i, " (", nodes[i], " of the graph) has weight ", x.nw[i], " instead of ", h.nw[nodes[i]]); KCHECK(sorted(want) == sorted(x.adj[i]), how, ": node ", i, " (", nodes[i], " of the graph) has other edges than inside of its block");
  }
  KCHECK(s.m() == m && (i64)s.total_node_weight() == tw && (i64)s.total_edge_weight() == te, how, ": m=", s.m(), " instead of ", m, ", or wrong total weights");
}
// recursive bipartitioning in place: s = subgraph induced by nodes, spans fk final blocks
static void recurse(kvc::Rng &r, const HG &h, const Graph &s, const std::vector<u32> &nodes, u32 fk, graph::SubgraphMemoryStartPosition pos, graph::SubgraphMemory &mem, graph::TemporarySubgraphMemory &tmp, const std::string &how) {
  if (fk < 2 || kvc::g_fails) return;
  StaticArray<BlockID> p(s.n(), static_array::seq); int style = r.below(4); std::vector<u32> part[2]; for (u32 i = 0; i < s.n(); ++i) { p[i] = style == 0 ? r.below(2) : style == 1 ? i >= s.n() / 2 : style == 2 ? r.below(10) == 0 : 1; part[p[i]].push_back(nodes[i]); }
  PartitionedGraph pg(PartitionedGraph::seq{}, s, 2, std::move(p)); std::array<BlockID, 2> ks{(fk + 1) / 2, fk / 2}; if (r.coin()) std::swap(ks[0], ks[1]);
  auto [subs, ps] = graph::extract_subgraphs_sequential(pg, ks, pos, mem, tmp);
  KCHECK(ps[0].nodes_start_pos == pos.nodes_start_pos && ps[0].edges_start_pos == pos.edges_start_pos && ps[1].nodes_start_pos >= ps[0].nodes_start_pos + part[0].size() + ks[0] && ps[1].edges_start_pos >= ps[0].edges_start_pos + subs[0].m(), how, ": the two parts of a block share memory");
  for (int i : {0, 1}) induced(h, subs[i], part[i], kvc::str(how, ", part ", i, " of ", fk, " final blocks"));
  recurse(r, h, subs[0], part[0], ks[0], ps[0], mem, tmp, how); induced(h, subs[1], part[1], kvc::str(how, ", part 1 of ", fk, " final blocks after part 0 was split further")); recurse(r, h, subs[1], part[1], ks[1], ps[1], mem, tmp, how);
}
static Graph make(kvc::Rng &r, const HG &h, bool expl, bool compressed) { auto g = csr(h, expl); if (!compressed) return Graph(std::move(g)); return Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(*g))); }
static StaticArray<BlockID> sa32(const std::vector<u32> &p) { StaticArray<BlockID> a(p.size(), static_array::seq); for (u32 i = 0; i < p.size(); ++i) a[i] = p[i]; return a; }
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 1500 : 200;
  graph::TemporarySubgraphMemory tmp; // shared by all cases, as it is in the library
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    u32 n = i < 6 ? i + 1 : 1 + r.below(r.coin() ? 40 : 1200); i32 mw = r.coin() ? 1 : 1 + r.below(50), me = r.coin() ? 1 : 1 + r.below(1000); int threads = 1 + r.below(8);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, threads); bool compressed = r.below(5) == 0;
    HG h = random_graph(r, n, r.below(8), mw, me, compressed); u32 input_k = 1 + r.below(r.coin() ? 8 : 70), k = 1; while (2 * k <= input_k && r.below(4)) k *= 2; if (r.below(6) == 0) k = input_k;
    Graph G = make(r, h, r.coin(), compressed); auto P = random_partition(r, h, k, r.below(4)); std::vector<std::vector<u32>> blocks(k); for (u32 u = 0; u < n; ++u) blocks[P[u]].push_back(u);
    std::string how = kvc::str(compressed ? "compressed " : "", h.name, ", ", k, " of ", input_k, " blocks, ", threads, " threads"); kvc::begin(how);
    PartitionedGraph pg(G, k, sa32(P)); graph::SubgraphMemory mem(n, input_k, G.m(), G.is_node_weighted(), G.is_edge_weighted());
    std::vector<u32> map1(n); u64 pad = 0;
    { // all blocks at once
      auto [subs, mapping, pos] = graph::extract_subgraphs(pg, input_k, mem); KCHECK(subs.size() == k && mapping.size() == n, how, ": number of subgraphs");
      for (u32 q = 0; q < k && !kvc::g_fails; ++q) {
        std::vector<u32> nodes(blocks[q].size(), ~0u); bool ok = true; for (u32 u : blocks[q]) { ok &= mapping[u] < nodes.size() && nodes[mapping[u]] == ~0u; if (mapping[u] < nodes.size()) nodes[mapping[u]] = u; }
        KCHECK(ok, how, ": the nodes of block ", q, " have no names from 0 to ", nodes.size(), " in their subgraph"); if (!ok) break; induced(h, subs[q], nodes, kvc::str(how, ", block ", q)); u32 fk = partitioning::compute_final_k(q, k, input_k); pad += fk;
        KCHECK(pos[q + 1].nodes_start_pos >= pos[q].nodes_start_pos + nodes.size() + fk && pos[q + 1].edges_start_pos >= pos[q].edges_start_pos + subs[q].m() && pos[q + 1].nodes_start_pos <= n + input_k && pos[q + 1].edges_start_pos <= G.m(), how, ": no room for block ", q);
      }
      for (u32 u = 0; u < n; ++u) map1[u] = mapping[u];
      for (u32 q = 0; q < k && !kvc::g_fails; ++q) { std::vector<u32> nodes(blocks[q].size()); for (u32 u : blocks[q]) nodes[map1[u]] = u; if (q + 1 < k && r.below(3) == 0) continue; recurse(r, h, subs[q], nodes, partitioning::compute_final_k(q, k, input_k), pos[q], mem, tmp, kvc::str(how, ", in place in block ", q)); }
    }
    if (kvc::g_fails) break;
    { // one block at a time
      auto pre = graph::lazy_extract_subgraphs_preprocessing(pg); KCHECK(pre.block_nodes_offset.size() == k + 1 && pre.block_nodes_offset[0] == 0 && pre.block_nodes_offset[k] == n && pre.block_num_edges.size() == k, how, ": shape of the lists of nodes by block");
      for (u32 q = 0; q < k && !kvc::g_fails; ++q) {
        u32 o = pre.block_nodes_offset[q], sz = pre.block_nodes_offset[q + 1] - o; KCHECK(sz == blocks[q].size(), how, ": block ", q, " has ", blocks[q].size(), " nodes, ", sz, " listed"); if (sz != blocks[q].size()) break; std::vector<u32> nodes; bool ok = true; u64 inner = 0;
        for (u32 j = 0; j < sz; ++j) { u32 u = pre.block_nodes[o + j]; ok &= u < n && P[u] == q && pre.mapping[u] == j; nodes.push_back(u); } KCHECK(ok, how, ": nodes of block ", q, " are not listed under their new names"); if (!ok) break;
        for (u32 u : nodes) for (auto &e : h.adj[u]) inner += P[e.first] == q; KCHECK(pre.block_num_edges[q] == inner, how, ": block ", q, " has ", inner, " inner edges, counted ", pre.block_num_edges[q]);
        graph::SubgraphMemory own; own.weighted_resize(sz, 1, inner, G.is_node_weighted() ? sz : 0, G.is_edge_weighted() ? inner : 0); StaticArray<NodeID> list(sz, pre.block_nodes.data() + o);
        if (sz == 0) { own.nodes.resize(1); } Graph s = graph::extract_subgraph(pg, q, list, pre.mapping, own); induced(h, s, nodes, kvc::str(how, ", block ", q, " on its own"));
      }
    }
    if (kvc::g_fails) break;
    { // copying partitions of the subgraphs back
      u32 kp = input_k; if (r.coin() && (k & (k - 1)) == 0) { kp = k; while (2 * kp < input_k && r.below(3)) kp *= 2; } std::vector<u32> off(k + 1, 0); for (u32 q = 0; q < k; ++q) off[q + 1] = off[q] + (kp == input_k ? partitioning::compute_final_k(q, k, input_k) : kp / k);
      KCHECK(off[k] == kp, how, ": the final blocks of all blocks are ", off[k], " instead of ", kp);
      ScalableVector<StaticArray<BlockID>> sp; for (u32 q = 0; q < k; ++q) { StaticArray<BlockID> x(blocks[q].size(), static_array::seq); for (auto &y : x) y = r.below(off[q + 1] - off[q]); sp.push_back(std::move(x)); }
      StaticArray<NodeID> mp(n, static_array::seq); for (u32 u = 0; u < n; ++u) mp[u] = map1[u]; std::vector<u32> want(n); for (u32 u = 0; u < n; ++u) want[u] = off[P[u]] + sp[P[u]][map1[u]];
      PartitionedGraph q = graph::copy_subgraph_partitions(std::move(pg), sp, kp, input_k, mp); KCHECK(q.k() == kp && q.n() == n, how, ": shape of the extended partition"); bool ok = true; for (u32 u = 0; u < n; ++u) ok &= q.block(u) == want[u];
      KCHECK(ok, how, ", to ", kp, " blocks: a node is not in the block of its subgraph partition"); auto w = weights(h, want, kp); for (u32 q2 = 0; ok && q2 < kp; ++q2) KCHECK(q.block_weight(q2) == w[q2], how, ", to ", kp, " blocks: weight of block ", q2);
    }
  }
  // extending partitions: pools shared by graphs with and without weights, as the levels of a hierarchy share them
  int M = kvc::g_thorough ? 400 : 60; std::unique_ptr<partitioning::SubgraphMemoryEts> pool; std::unique_ptr<partitioning::TemporarySubgraphMemoryEts> tmps;
  for (int i = 0; i < M && !kvc::g_fails; ++i) {
    if (i % 6 == 0) { pool = std::make_unique<partitioning::SubgraphMemoryEts>(); tmps = std::make_unique<partitioning::TemporarySubgraphMemoryEts>(); }
    u32 n = 2 + r.below(r.coin() ? 60 : 900); i32 mw = r.coin() ? 1 : 1 + r.below(10), me = r.coin() ? 1 : 1 + r.below(100); int threads = 1 + r.below(4);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, threads); bool compressed = r.below(5) == 0;
    HG h = random_graph(r, n, r.below(8), mw, me, compressed); u32 input_k = std::min<u32>(n, 2 + r.below(r.coin() ? 8 : 40)), k = 1; while (2 * k < input_k && r.coin()) k *= 2; u32 kp = input_k; if (r.coin()) { kp = k; while (2 * kp < input_k && r.below(3)) kp *= 2; if (kp == k) kp = input_k; }
    Graph G = make(r, h, r.coin(), compressed); auto P = random_partition(r, h, k, r.below(4)); bool lazy = r.below(3) != 0; Context ctx = create_context_by_preset_name(r.coin() ? "default" : "fast"); ctx.parallel.num_threads = threads; ctx.partition.setup(G, input_k, 0.03 + 0.1 * r.below(3)); ctx.partitioning.min_consecutive_seq_bipartitioning_levels = r.below(3);
    std::string how = kvc::str("extending ", compressed ? "compressed " : "", h.name, " from ", k, " to ", kp, " of ", input_k, " blocks, ", threads, " threads, ", lazy ? "lazy" : "at once", ", case ", i % 6, " of its memory pool"); kvc::begin(how);
    PartitionedGraph pg(G, k, sa32(P)); InitialBipartitionerWorkerPool bp(ctx);
    if (lazy) partitioning::extend_partition_lazy_extraction(pg, kp, ctx, *pool, *tmps, bp, threads); else partitioning::extend_partition(pg, kp, ctx, *tmps, bp, threads);
    std::vector<u32> off(k + 1, 0); for (u32 q = 0; q < k; ++q) off[q + 1] = off[q] + (kp == input_k ? partitioning::compute_final_k(q, k, input_k) : kp / k);
    KCHECK(pg.k() == kp && pg.n() == n, how, ": ", pg.k(), " blocks"); bool ok = pg.k() == kp; std::vector<u32> Q(n); for (u32 u = 0; u < n; ++u) { Q[u] = pg.block(u); ok &= off[P[u]] <= Q[u] && Q[u] < off[P[u] + 1]; } KCHECK(ok, how, ": a node left the blocks its block is split into");
    if (ok) { auto w = weights(h, Q, kp); for (u32 q = 0; q < kp; ++q) KCHECK(pg.block_weight(q) == w[q], how, ": weight of block ", q); }
  }
  return kvc::done();
}
