// Bounded contract run for C10: the compressed graph object against the graph it was built from.
#include "graphs.h"
#include <mutex>
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/graphutils/parallel_compressed_graph_builder.h"
using namespace kg;
typedef std::vector<std::pair<u32, i32>> Adj;
static Adj S(Adj a) { std::sort(a.begin(), a.end()); return a; }
void check(const CompressedGraph &g, const HG &h, kvc::Rng &r, bool buckets, const std::string &how) {
  u64 m = h.m(); KCHECK(g.n() == h.n && g.m() == m, how, ": n/m = ", g.n(), "/", g.m(), ", expected ", h.n, "/", m); if (g.n() != h.n) return;
  KCHECK(g.total_node_weight() == h.tnw() && g.total_edge_weight() == h.tew(), how, ": totals ", g.total_node_weight(), " ", g.total_edge_weight(), ", expected ", h.tnw(), " ", h.tew());
  i32 mx = 0; u32 md = 0; for (i32 w : h.nw) mx = std::max(mx, w); for (auto &a : h.adj) md = std::max<u32>(md, a.size());
  if (h.n) KCHECK(g.max_node_weight() == mx, how, ": max node weight ", g.max_node_weight(), ", expected ", mx); KCHECK(g.max_degree() == md, how, ": max degree ", g.max_degree(), ", expected ", md);
  KCHECK(g.is_node_weighted() == (h.tnw() != h.n) && g.is_edge_weighted() == (h.tew() != (i64)m), how, ": weighted flags");
  u32 hi = 0, parts = 0; for (auto &a : h.adj) if (CompressedGraph::kHighDegreeEncoding && a.size() >= CompressedGraph::kHighDegreeThreshold) { ++hi; parts += (a.size() + 999) / 1000; } KCHECK(g.num_high_degree_nodes() == hi && g.num_high_degree_parts() == parts, how, ": high-degree statistics");
  for (u32 u = 0; u < h.n && kvc::g_fails < 3; ++u) {
    Adj want = S(h.adj[u]); u32 d = want.size(); KCHECK(g.degree(u) == d && g.node_weight(u) == h.nw[u], how, ": degree/weight of ", u);
    Adj got, ord; g.adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { got.push_back({v, w}); }); ord = got; KCHECK(S(got) == want, how, ": adjacent_nodes of ", u);
    got.clear(); g.adjacent_nodes(u, [&](NodeID v) { got.push_back({v, 0}); }); KCHECK(got.size() == d, how, ": adjacent_nodes (targets) of ", u); for (u32 i = 0; i < got.size() && i < d; ++i) KCHECK(got[i].first == ord[i].first, how, ": target ", i, " of ", u);
    u32 lim = r.below(d + 3); if (r.below(4) == 0) lim = ~0u; got.clear(); g.adjacent_nodes(u, lim, [&](NodeID v, EdgeWeight w) { got.push_back({v, w}); }); KCHECK(got == Adj(ord.begin(), ord.begin() + std::min(lim, d)), how, ": first ", lim, " neighbours of ", u, ": ", got.size(), " visited");
    u32 stop = r.below(d + 1), c = 0; g.adjacent_nodes(u, [&](NodeID, EdgeWeight) { ++c; return c > stop; }); KCHECK(c == std::min(d, stop + 1), how, ": adjacent_nodes of ", u, " stops after ", c, " of ", d, ", expected ", stop + 1);
    c = 0; g.adjacent_nodes(u, lim, [&](NodeID) { ++c; return c > stop; }); KCHECK(c == std::min({d, stop + 1, lim}), how, ": limited adjacent_nodes of ", u, " stops after ", c);
    if (u % 7 == 0 || d >= 1000) { std::mutex mu; got.clear(); g.pfor_adjacent_nodes(u, ~0u, 1 + r.below(5), [&](NodeID v, EdgeWeight w) { std::lock_guard<std::mutex> l(mu); got.push_back({v, w}); }); KCHECK(S(got) == want, how, ": pfor_adjacent_nodes of ", u);
      got.clear(); g.pfor_adjacent_nodes(u, ~0u, 1 + r.below(5), [&](auto &&l2) { Adj loc; l2([&](NodeID v, EdgeWeight w) { loc.push_back({v, w}); }); std::lock_guard<std::mutex> l(mu); got.insert(got.end(), loc.begin(), loc.end()); }); KCHECK(S(got) == want, how, ": pfor_adjacent_nodes (indirect) of ", u); }
  }
  if (buckets) {
    KCHECK(g.sorted(), how, ": sorted flag"); std::vector<u32> size(40); u32 nb = 0; for (auto &a : h.adj) { u32 b = 0; u32 d = a.size(); while (d) { ++b; d >>= 1; } ++size[b]; nb = std::max(nb, b + 1); }
    KCHECK(g.number_of_buckets() == nb, how, ": ", g.number_of_buckets(), " buckets, expected ", nb); u32 f = 0;
    for (u32 b = 0; b < nb && b < g.number_of_buckets(); ++b) { KCHECK(g.bucket_size(b) == size[b] && g.first_node_in_bucket(b) == f && g.first_invalid_node_in_bucket(b) == f + size[b], how, ": bucket ", b); f += size[b]; }
  } else if (h.n) KCHECK(g.number_of_buckets() == 1 && g.first_node_in_bucket(0) == 0 && g.first_invalid_node_in_bucket(0) == h.n, how, ": one bucket holds all nodes of an unsorted graph");
}
static HG bucket_order(const HG &h, bool isolated_last) {
  std::vector<u32> o(h.n); std::iota(o.begin(), o.end(), 0); auto key = [&](u32 u) { u32 d = h.adj[u].size(), b = 0; while (d) { ++b; d >>= 1; } return isolated_last && !b ? 99u : b; };
  std::stable_sort(o.begin(), o.end(), [&](u32 a, u32 b) { return key(a) < key(b); }); std::vector<u32> p(h.n); for (u32 i = 0; i < h.n; ++i) p[o[i]] = i;
  HG q; q.n = h.n; q.name = h.name; for (u32 i = 0; i < h.n; ++i) { q.nw.push_back(h.nw[o[i]]); q.adj.push_back(h.adj[o[i]]); for (auto &e : q.adj.back()) e.first = p[e.first]; } return q;
}
static std::unique_ptr<CSRGraph> sorted_csr(const HG &h) { auto c = csr(h, true); return std::make_unique<CSRGraph>(std::move(c->raw_nodes()), std::move(c->raw_edges()), std::move(c->raw_node_weights()), std::move(c->raw_edge_weights()), true); }
// runs of consecutive targets of all lengths
static void runs(HG &h, kvc::Rng &r) {
  std::set<std::pair<u32, u32>> seen; for (auto &a : h.adj) a.clear();
  for (u32 t = 0; t < h.n; ++t) { u32 u = r.below(h.n), s = r.below(h.n), l = 1 + r.below(r.coin() ? 6 : 40), step = r.below(4) ? 1 : 2; for (u32 v = s; v < h.n && l--; v += step) if (v != u && seen.insert({std::min(u, v), std::max(u, v)}).second) { i32 w = 1 + r.below(9); h.adj[u].push_back({v, w}); h.adj[v].push_back({u, w}); } }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 1500 : 200;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    bool huge = i % 50 == 49; u32 n = i < 16 ? i / 2 : huge ? 10001 + r.below(4000) : 1 + r.below(i % 9 ? 120 : 4000); i32 mw = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 3000), me = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 9000);
    HG h = random_graph(r, n, i < 16 ? (i & 1 ? 5 : 0) : huge ? 2 : r.below(8), mw, me); if (i > 16 && i % 5 == 0 && !huge) { runs(h, r); h.name += " with runs"; }
    if (huge) { std::set<u32> s; for (auto &e : h.adj[0]) s.insert(e.first); for (u32 v = 1; v < n; ++v) if (!s.count(v) && (v > 5000 || r.coin())) { h.adj[0].push_back({v, 1}); h.adj[v].push_back({0, 1}); }
      // degrees around the threshold and exact multiples of the part length
      u32 d = h.adj[0].size(), to = i / 50 % 3 == 0 ? std::max(d / 1000 * 1000, 10000u) : i / 50 % 3 == 1 ? std::max(d / 1000 * 1000 + 1, 10000u) : d;
      for (u32 v = 1; v < n && h.adj[0].size() < to; ++v) { bool has = false; for (auto &e : h.adj[v]) has |= e.first == 0; if (!has) { h.adj[0].push_back({v, 1}); h.adj[v].push_back({0, 1}); } }
      while (h.adj[0].size() > to) { u32 v = h.adj[0].back().first; h.adj[0].pop_back(); auto &a = h.adj[v]; for (u32 k = 0; k < a.size(); ++k) if (a[k].first == 0) { a.erase(a.begin() + k); break; } }
      h.name = kvc::str(h.name, " with a node of degree ", h.adj[0].size()); }
    if (i % 11 == 3 && h.m()) { for (auto &x : h.adj) for (auto &e : x) e.second = 1; u32 u = 0; while (h.adj[u].empty()) ++u; for (auto &e : h.adj[u]) { e.second = 1 + r.below(1u << 20); for (auto &f : h.adj[e.first]) if (f.first == u) f.second = e.second; } }
    if (h.tew() >= (1ll << 31) || h.tnw() >= (1ll << 31)) continue;
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8)); kvc::begin(h.name); kvc::announce(); auto c = csr(h, r.coin());
    { auto g = CompressedGraphBuilder::compress(*c); check(g, h, r, false, "sequential builder"); if (n) { auto t = std::make_unique<CompressedGraph>(std::move(g)); check(*t, h, r, false, "moved"); Graph gg(std::move(t)); CSRGraph back(gg); HG q = host(back); for (u32 u = 0; u < n; ++u) KCHECK(S(q.adj[u]) == S(h.adj[u]) && q.nw[u] == h.nw[u], "decompressed node ", u); KCHECK(back.max_degree() == c->max_degree() && back.total_edge_weight() == h.tew(), "decompressed totals"); } }
    { auto g = parallel_compress(*c); check(g, h, r, false, "parallel builder"); }
    { HG q = bucket_order(h, false); auto s = sorted_csr(q); auto g = CompressedGraphBuilder::compress(*s); check(g, q, r, true, "sorted graph"); auto p = parallel_compress(*s); check(p, q, r, true, "sorted graph (parallel builder)"); }
    { HG q = bucket_order(h, true); u32 iso = 0; for (auto &x : q.adj) iso += x.empty(); auto c2 = sorted_csr(q); CompressedGraph s = r.coin() ? CompressedGraphBuilder::compress(*c2) : parallel_compress(*c2);
      HG w = q; w.n -= iso; w.adj.resize(w.n); w.nw.resize(w.n);
      for (int k = 0; k < (n ? 2 : 1); ++k) { s.remove_isolated_nodes(iso); check(s, w, r, true, "isolated nodes removed"); u32 back = s.integrate_isolated_nodes(); KCHECK(back == iso, "integrate_isolated_nodes returns ", back, ", expected ", iso);
        KCHECK(s.n() == q.n && s.total_node_weight() == q.tnw(), "isolated nodes are back: n = ", s.n(), ", total = ", s.total_node_weight()); for (u32 u = 0; u < q.n; ++u) KCHECK(s.degree(u) == q.adj[u].size() && s.node_weight(u) == q.nw[u], "node ", u, " after re-integration"); } }
  }
  return kvc::done();
}
