// Bounded contract run for C19: renaming nodes, reordering edges, assigning isolated nodes.
#include "graphs.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/graphutils/permutator.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#undef V
#undef C
using namespace kg;
typedef std::vector<std::pair<u32, i32>> Adj;
static Adj sorted(Adj a) { std::sort(a.begin(), a.end()); return a; }
// h2 is h with node u renamed to perm[u]
static void isomorphic(const HG &h, const HG &h2, const std::vector<u32> &perm, const std::string &how) {
  KCHECK(h2.n == h.n, how, ": ", h2.n, " nodes instead of ", h.n); if (h2.n != h.n) return;
  std::vector<bool> seen(h.n, false); bool ok = true; for (u32 u = 0; u < h.n; ++u) { ok &= perm[u] < h.n && !seen[perm[u]]; if (perm[u] < h.n) seen[perm[u]] = true; } KCHECK(ok, how, ": the new names are no permutation"); if (!ok) return;
  for (u32 u = 0; u < h.n && !kvc::g_fails; ++u) { KCHECK(h2.nw[perm[u]] == h.nw[u], how, ": node ", u, " has weight ", h.nw[u], ", afterwards ", h2.nw[perm[u]]); Adj a = h.adj[u]; for (auto &e : a) e.first = perm[e.first]; KCHECK(sorted(a) == sorted(h2.adj[perm[u]]), how, ": the neighbours or edge weights of node ", u, " changed"); }
}
static u32 bucket(u32 d) { u32 b = 0; while (d) { ++b; d >>= 1; } return b; }
int main(int a, char **b) {
  kvc::init(a, b); kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 1600 : 260;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    u32 n = i < 8 ? i + 1 : i == 8 || i == 60 ? 21000 : 1 + r.below(r.coin() ? 50 : 3000); i32 mw = r.coin() ? 1 : 1 + r.below(50), me = r.coin() ? 1 : 1 + r.below(1000); int threads = 1 + r.below(8);
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, threads);
    HG h = random_graph(r, n, n > 20000 ? 2 : r.below(8), mw, me, r.coin()); bool expl = r.coin(); std::string how = kvc::str(h.name, ", ", threads, " threads"); kvc::begin(how);
    if (i % 2 == 0) { // runs of consecutive neighbours make intervals
      u32 c = r.below(4); std::set<std::pair<u32, u32>> have; for (u32 u = 0; u < n; ++u) for (auto &e : h.adj[u]) have.insert({u, e.first});
      for (u32 t = 0; t < c; ++t) { u32 u = r.below(n), f = r.below(n), l = 2 + r.below(9); for (u32 v = f; v < std::min(n, f + l); ++v) if (v != u && !have.count({u, v})) { i32 w = me == 1 ? 1 : (i32)r.in(1, me); h.adj[u].push_back({v, w}); h.adj[v].push_back({u, w}); have.insert({u, v}); have.insert({v, u}); } }
    }
    { // generic buckets
      u32 nb = 1 + r.below(r.coin() ? 5 : 300); std::vector<u32> bk(n); for (auto &x : bk) x = r.below(1 + r.below(nb)); 
      auto p = graph::compute_node_permutation_by_generic_buckets<u32>(n, nb, [&](NodeID u) { return bk[u]; });
      bool inv = p.old_to_new.size() == n && p.new_to_old.size() == n; for (u32 u = 0; inv && u < n; ++u) inv &= p.old_to_new[u] < n && p.new_to_old[p.old_to_new[u]] == u && p.new_to_old[u] < n && p.old_to_new[p.new_to_old[u]] == u;
      KCHECK(inv, how, ", ", nb, " buckets: the two directions are not inverse to each other"); bool ord = true; if (inv) for (u32 u = 0; u + 1 < n; ++u) ord &= bk[p.new_to_old[u]] <= bk[p.new_to_old[u + 1]]; KCHECK(ord, how, ", ", nb, " buckets: nodes are not ordered by bucket");
    }
    { // raw arrays with both directions, with and without isolated nodes at the end
      auto g = csr(h, expl); auto X = g->take_raw_nodes(); auto T = g->take_raw_edges(); auto W = g->take_raw_node_weights(); auto E = g->take_raw_edge_weights();
      bool at_end = r.coin(); auto p = graph::compute_node_permutation_by_degree_buckets(X, at_end); std::vector<u32> perm(p.old_to_new.begin(), p.old_to_new.end()); bool ord = true;
      StaticArray<EdgeID> X2(X.size()); StaticArray<NodeID> T2(T.size()); StaticArray<NodeWeight> W2(W.size()); StaticArray<EdgeWeight> E2(E.size()); graph::build_permuted_graph(X, T, W, E, p, X2, T2, W2, E2);
      KCHECK(X2[n] == T.size(), how, ": the last offset is ", X2[n], " for ", T.size(), " edges"); auto key = [&](u32 u) { u32 d = h.adj[u].size(); return d == 0 ? (at_end ? 99 : 0) : bucket(d); };
      for (u32 u = 0; u + 1 < n; ++u) ord &= key(p.new_to_old[u]) <= key(p.new_to_old[u + 1]); KCHECK(ord, how, ": nodes are not ordered by degree bucket");
      CSRGraph g2(std::move(X2), std::move(T2), std::move(W2), std::move(E2)); isomorphic(h, host(g2), perm, how + ", raw arrays");
    }
    // the whole reordering, isolated nodes cut off, partitioned, put back
    auto g = csr(h, expl); Graph G = graph::rearrange_by_degree_buckets(*g); std::vector<u32> perm(n); u32 iso = 0; for (u32 u = 0; u < n; ++u) { iso += h.adj[u].empty(); }
    KCHECK(G.sorted() && G.permuted(), how, ": the reordered graph does not know that it is"); if (!G.permuted()) break; for (u32 u = 0; u < n; ++u) perm[u] = G.map_original_node(u);
    HG h2 = host(G); isomorphic(h, h2, perm, how + ", reordered"); if (kvc::g_fails) break; KCHECK((i64)G.total_node_weight() == h.tnw() && (i64)G.total_edge_weight() == h.tew() && G.m() == h.m(), how, ": totals of the reordered graph");
    for (u32 u = n - iso; u < n; ++u) KCHECK(h2.adj[u].empty(), how, ": isolated nodes are not last");
    KCHECK(graph::count_isolated_nodes(G) == iso, how, ": ", graph::count_isolated_nodes(G), " isolated nodes counted, there are ", iso);
    { Graph plain(csr(h, expl)); KCHECK(graph::count_isolated_nodes(plain) == iso, how, ": isolated nodes of the unordered graph"); }
    G.remove_isolated_nodes(iso); KCHECK(G.n() == n - iso, how, ": nodes left after cutting off");
    if (n - iso > 0 || iso > 0) {
      u32 k = 1 + r.below(r.coin() ? 4 : 40); std::vector<u32> P(n - iso); for (auto &x : P) x = r.below(k); std::vector<i64> w0(k, 0); for (u32 u = 0; u < n - iso; ++u) w0[P[u]] += h2.nw[u];
      // limits: room for everything, spread unevenly, at least what the blocks hold
      std::vector<BlockWeight> lim(k); i64 rest = h.tnw(); for (u32 j = 0; j < k; ++j) { lim[j] = w0[j]; rest -= w0[j]; } bool enough = r.below(4) != 0; if (!enough) rest = r.below(rest + 1); while (rest > 0) { u32 j = r.below(k); i64 x = std::min<i64>(rest, 1 + r.below(1 + rest / 2)); lim[j] += x; rest -= x; } if (r.below(6) == 0) for (auto &x : lim) x = std::max<i64>(0, x - (i64)r.below(3));
      i64 total = 0; bool held = true; for (u32 j = 0; j < k; ++j) { total += lim[j]; held &= w0[j] <= lim[j]; }
      PartitionContext ctx; { Graph full(csr(h, expl)); ctx.setup(full, lim); }
      StaticArray<BlockID> part(n - iso, static_array::seq); for (u32 u = 0; u < n - iso; ++u) part[u] = P[u]; PartitionedGraph pg(G, k, std::move(part));
      u32 back = G.integrate_isolated_nodes(); KCHECK(back == iso && G.n() == n, how, ": ", back, " of ", iso, " isolated nodes are put back"); if (G.n() != n) break;
      PartitionedGraph q = graph::assign_isolated_nodes(std::move(pg), iso, ctx); KCHECK(q.n() == n && q.k() == k, how, ": shape of the extended partition"); std::vector<i64> w(k, 0); bool keep = true, range = true;
      for (u32 u = 0; u < n; ++u) { u32 x = q.block(u); range &= x < k; if (u < n - iso) keep &= x == P[u]; if (x < k) w[x] += h2.nw[u]; } KCHECK(range, how, ", k=", k, ": an isolated node has no block"); KCHECK(keep, how, ", k=", k, ": a node that was not isolated changed its block");
      for (u32 j = 0; range && j < k; ++j) KCHECK(q.block_weight(j) == w[j], how, ", k=", k, ": weight of block ", j);
      for (u32 j = 0; range && j + 1 < k; ++j) KCHECK(w[j] <= std::max<i64>(w0[j], lim[j]), how, ", k=", k, ": block ", j, " got weight ", w[j], " beyond its limit ", lim[j]);
      if (mw == 1 && held && total >= h.tnw()) for (u32 j = 0; j < k; ++j) KCHECK(w[j] <= lim[j], how, ", k=", k, ": block ", j, " has weight ", w[j], " beyond its limit ", lim[j], " although there is room");
    }
    { // edges in the order of the compressed representation
      auto c = csr(h, expl); graph::reorder_edges_by_compression(*c); HG h3 = host(*c); std::vector<u32> id(n); std::iota(id.begin(), id.end(), 0u); isomorphic(h, h3, id, how + ", edges reordered"); if (kvc::g_fails) break;
      HG hs = h; for (auto &x : hs.adj) std::sort(x.begin(), x.end()); auto s = csr(hs, expl); auto comp = CompressedGraphBuilder::compress(*s); for (u32 u = 0; u < n && !kvc::g_fails; ++u) { std::vector<u32> o; comp.adjacent_nodes(u, [&](NodeID v) { o.push_back(v); }); std::vector<u32> x; for (auto &e : h3.adj[u]) x.push_back(e.first); KCHECK(o == x, how, ": the edges of node ", u, " are not in the order of the compressed graph"); }
    }
  }
  return kvc::done();
}
