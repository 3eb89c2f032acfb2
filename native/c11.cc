// Bounded contract run for C11: contraction of clusterings by every algorithm, and the projections between the levels.
#include "graphs.h"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction.h"
#include "kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
using namespace kg;
static std::vector<u32> clustering(kvc::Rng &r, const HG &g, int style) {
  std::vector<u32> c(g.n); std::iota(c.begin(), c.end(), 0);
  switch (style) {
  case 0: break;                                                              // singletons
  case 1: { u32 l = r.below(g.n); for (auto &x : c) x = l; break; }             // one cluster
  case 2: for (u32 u = 0; u < g.n; ++u) c[u] = r.below(g.n); break;             // leaders need not be members
  case 3: { u32 k = 1 + r.below(20); for (auto &x : c) x = g.n - 1 - r.below(std::min(k, g.n)); break; }
  case 4: for (u32 u = 0; u < g.n; ++u) if (!g.adj[u].empty() && r.coin()) c[u] = c[g.adj[u][r.below(g.adj[u].size())].first]; break; // neighbours
  default: { u32 k = 1 + r.below(6); for (u32 u = 0; u < g.n; ++u) c[u] = u / k * k; break; }
  }
  return c;
}
static void check(const HG &g, const std::vector<u32> &cl, CoarseGraph &c, kvc::Rng &r, const std::string &how) {
  const Graph &cg = c.get(); u32 cn = cg.n(); std::set<u32> ids(cl.begin(), cl.end());
  KCHECK(cn == ids.size(), how, ": ", cn, " coarse nodes for ", ids.size(), " clusters"); if (kvc::g_fails) return;
  std::vector<BlockID> id(cn), map(g.n); std::iota(id.begin(), id.end(), 0); c.project_up(id, map);
  std::map<u32, u32> of; std::vector<char> used(cn, 0);
  for (u32 u = 0; u < g.n; ++u) {
    KCHECK(map[u] < cn, how, ": node ", u, " is mapped to coarse node ", map[u], " of ", cn); if (kvc::g_fails) return;
    auto [it, fresh] = of.insert({cl[u], map[u]}); KCHECK(it->second == map[u], how, ": nodes of cluster ", cl[u], " are mapped to coarse nodes ", it->second, " and ", map[u]);
    if (fresh) { KCHECK(!used[map[u]], how, ": coarse node ", map[u], " holds two clusters"); used[map[u]] = 1; }
  }
  if (kvc::g_fails) return;
  std::vector<i64> w(cn, 0); std::vector<std::map<u32, i64>> adj(cn);
  for (u32 u = 0; u < g.n; ++u) { w[map[u]] += g.nw[u]; for (auto &e : g.adj[u]) if (map[e.first] != map[u]) adj[map[u]][map[e.first]] += e.second; }
  i64 tw = 0, te = 0, m = 0; i32 mx = 0; u32 md = 0;
  for (u32 u = 0; u < cn && !kvc::g_fails; ++u) {
    KCHECK(cg.node_weight(u) == w[u], how, ": coarse node ", u, " weighs ", cg.node_weight(u), ", its nodes weigh ", w[u]); tw += w[u]; mx = std::max<i32>(mx, w[u]); md = std::max<u32>(md, adj[u].size());
    KCHECK(cg.degree(u) == adj[u].size(), how, ": coarse node ", u, " has degree ", cg.degree(u), ", expected ", adj[u].size()); m += adj[u].size();
    std::set<u32> seen;
    cg.adjacent_nodes(u, [&](NodeID v, EdgeWeight x) {
      KCHECK(v < cn && v != u, how, ": coarse edge ", u, "->", v); KCHECK(seen.insert(v).second, how, ": parallel coarse edges ", u, "->", v); auto it = adj[u].find(v);
      KCHECK(it != adj[u].end() && it->second == x, how, ": coarse edge ", u, "->", v, " weighs ", x, ", expected ", it == adj[u].end() ? 0 : it->second); te += x;
    });
  }
  KCHECK((i64)cg.m() == m && cg.total_node_weight() == tw && cg.total_edge_weight() == te, how, ": coarse m ", cg.m(), ", total weights ", cg.total_node_weight(), " ", cg.total_edge_weight(), ", expected ", m, " ", tw, " ", te);
  KCHECK(tw == g.tnw(), how, ": total node weight ", tw, " of the coarse graph, ", g.tnw(), " of the fine graph"); KCHECK(cg.max_node_weight() == mx && cg.max_degree() == md, how, ": maximum node weight ", cg.max_node_weight(), " / degree ", cg.max_degree());
  // partitions of the coarse graph induce partitions of the fine graph with the same cut and block weights
  u32 k = 2 + r.below(5); std::vector<BlockID> cp(cn), fp(g.n); for (auto &x : cp) x = r.below(k); c.project_up(cp, fp); std::vector<i64> bw(k, 0), cb(k, 0); i64 ccut = 0;
  for (u32 u = 0; u < g.n; ++u) { KCHECK(fp[u] == cp[map[u]], how, ": project_up at ", u); if (fp[u] < k) bw[fp[u]] += g.nw[u]; }
  for (u32 u = 0; u < cn; ++u) { cb[cp[u]] += cg.node_weight(u); cg.adjacent_nodes(u, [&](NodeID v, EdgeWeight x) { if (v < cn && cp[v] != cp[u]) ccut += x; }); }
  KCHECK(bw == cb && ccut / 2 == cut(g, fp), how, ": projected cut ", cut(g, fp), ", coarse cut ", ccut / 2);
  std::vector<BlockID> back(cn, 77); c.project_down(fp, back); KCHECK(back == cp, how, ": project_down of a projected partition differs");
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 2500 : 150;
  contraction::MemoryContext shared; // reused over the whole history, as the coarsener does
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    bool big = i % 40 == 39, star = i % 80 == 20; u32 n = i < 8 ? 1 + i : star ? 24000 + r.below(9000) : big ? 9000 + r.below(20000) : 1 + r.below(i % 10 ? 150 : 4000);
    i32 mw = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 3000), me = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : star || big ? 3000 : 100000);
    HG h = random_graph(r, n, star ? 2 : i < 8 ? (i & 1 ? 5 : 0) : big ? (r.coin() ? 7 : 0) : r.below(8), mw, me);
    if (star) { std::set<u32> s; for (auto &e : h.adj[0]) s.insert(e.first); for (u32 v = 1; v < n; ++v) if (!s.count(v)) { h.adj[0].push_back({v, 1}); h.adj[v].push_back({0, 1}); } h.name += " with a hub"; }
    if (h.tew() >= (1ll << 31) || h.tnw() >= (1ll << 31)) continue;
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8));
    auto plain = graph(h, r.coin()); std::unique_ptr<Graph> g; if (r.below(3) == 0) g = std::make_unique<Graph>(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(plain->csr_graph())));
    const Graph &G = g ? *g : *plain;
    for (int t = 0; t < (big || star ? 2 : 3) && !kvc::g_fails; ++t) {
      int cs = star ? (t ? 5 : 0) : r.below(6); auto cl = clustering(r, h, cs); if (star && t) for (u32 u = 1; u < 40; ++u) cl[u] = cl[0];
      for (int al = 0; al < 6 && !kvc::g_fails; ++al) {
        ContractionCoarseningContext ctx; ctx.algorithm = al < 1 ? ContractionAlgorithm::BUFFERED : al < 2 ? ContractionAlgorithm::BUFFERED_LEGACY : al < 3 ? ContractionAlgorithm::UNBUFFERED_NAIVE : ContractionAlgorithm::UNBUFFERED;
        ctx.unbuffered_implementation = al == 3 ? ContractionImplementation::SINGLE_PHASE : al == 4 ? ContractionImplementation::TWO_PHASE : ContractionImplementation::GROWING_HASH_TABLES;
        ctx.edge_buffer_fill_fraction = r.coin() ? 1 : 0.05 + r.below(90) / 100.0; static const char *nm[] = {"buffered", "legacy buffered", "naive unbuffered", "unbuffered single-phase", "unbuffered two-phase", "unbuffered growing tables"};
        kvc::begin(kvc::str(h.name, g ? " compressed" : "", ", clustering ", cs)); kvc::announce();
        auto c = r.coin() ? contract_clustering(G, sa<NodeID>(cl), ctx, shared) : contract_clustering(G, sa<NodeID>(cl), ctx); check(h, cl, *c, r, kvc::str(nm[al], " contraction"));
        if (al == (int)(i % 6) && c->get().n() > 1 && !kvc::g_fails) { // one level further, as a hierarchy does
          HG h2 = host(c->get()); h2.name = h.name + ", second level"; auto cl2 = clustering(r, h2, r.below(6)); auto c2 = contract_clustering(c->get(), sa<NodeID>(cl2), ctx, shared); check(h2, cl2, *c2, r, kvc::str(nm[al], " contraction (second level)"));
        }
      }
    }
  }
  return kvc::done();
}
