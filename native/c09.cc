// Bounded contract run for C09: the graph object against the data it was built from.
#include "graphs.h"
#include "kaminpar-common/degree_buckets.h"
using namespace kg;
typedef std::vector<std::pair<u32, i32>> Adj;
static bool eq(const Adj &a, const Adj &b) { return a == b; }
void check(const CSRGraph &g, const HG &h, kvc::Rng &r, bool buckets, const char *how) {
  u64 m = h.m(); KCHECK(g.n() == h.n && g.m() == m, how, ": n/m = ", g.n(), "/", g.m());
  KCHECK(g.total_node_weight() == h.tnw() && g.total_edge_weight() == h.tew(), how, ": totals ", g.total_node_weight(), " ", g.total_edge_weight(), ", expected ", h.tnw(), " ", h.tew());
  i32 mx = 0; u32 md = 0; for (i32 w : h.nw) mx = std::max(mx, w); for (auto &a : h.adj) md = std::max<u32>(md, a.size());
  if (h.n) KCHECK(g.max_node_weight() == mx, how, ": max node weight ", g.max_node_weight(), ", expected ", mx); KCHECK(g.max_degree() == md, how, ": max degree ", g.max_degree(), ", expected ", md);
  bool uw = h.tnw() == h.n, ue = h.tew() == (i64)m; KCHECK(g.is_node_weighted() == !uw && g.is_edge_weighted() == !ue, how, ": weighted flags");
  u32 cnt = 0; for (NodeID u : g.nodes()) KCHECK(u == cnt++, how, ": nodes()"); KCHECK(cnt == h.n, how, ": nodes() count"); u64 ec = 0; for (EdgeID e : g.edges()) KCHECK(e == ec++, how, ": edges()"); KCHECK(ec == m, how, ": edges() count");
  { std::vector<std::uint8_t> s(h.n), se(m); g.pfor_nodes([&](NodeID u) { __atomic_fetch_add(&s[u], 1, __ATOMIC_RELAXED); }); g.pfor_edges([&](EdgeID e) { __atomic_fetch_add(&se[e], 1, __ATOMIC_RELAXED); }); for (u32 u = 0; u < h.n; ++u) KCHECK(s[u] == 1, how, ": pfor_nodes visits node ", u, " ", (int)s[u], " times"); for (u64 e = 0; e < m; ++e) KCHECK(se[e] == 1, how, ": pfor_edges"); }
  EdgeID first = 0;
  for (u32 u = 0; u < h.n && kvc::g_fails < 3; ++u) {
    const Adj &want = h.adj[u]; u32 d = want.size(); KCHECK(g.degree(u) == d && g.node_weight(u) == h.nw[u], how, ": degree/weight of ", u);
    KCHECK(g.first_edge(u) == first && g.first_invalid_edge(u) == first + d, how, ": edge range of ", u);
    Adj got; g.adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { got.push_back({v, w}); }); KCHECK(eq(got, want), how, ": adjacent_nodes of ", u);
    got.clear(); g.adjacent_nodes(u, [&](NodeID v) { got.push_back({v, 0}); }); KCHECK(got.size() == d, how, ": adjacent_nodes (targets) of ", u); for (u32 i = 0; i < got.size() && i < d; ++i) KCHECK(got[i].first == want[i].first, how, ": target ", i, " of ", u);
    u32 lim = r.below(d + 3); if (r.below(4) == 0) lim = ~0u; got.clear(); g.adjacent_nodes(u, lim, [&](NodeID v, EdgeWeight w) { got.push_back({v, w}); }); KCHECK(eq(got, Adj(want.begin(), want.begin() + std::min(lim, d))), how, ": first ", lim, " neighbours of ", u);
    u32 stop = r.below(d + 1), c = 0; g.adjacent_nodes(u, [&](NodeID, EdgeWeight) { ++c; return c > stop; }); KCHECK(c == std::min(d, stop + 1), how, ": adjacent_nodes of ", u, " stops after ", c);
    c = 0; g.adjacent_nodes(u, lim, [&](NodeID) { ++c; return c > stop; }); KCHECK(c == std::min({d, stop + 1, lim}), how, ": limited adjacent_nodes of ", u, " stops after ", c);
    got.clear(); u64 e0 = first; g.neighbors(u, [&](EdgeID e, NodeID v, EdgeWeight w) { KCHECK(e == e0++, how, ": edge id"); got.push_back({v, w}); KCHECK(g.edge_target(e) == v && g.edge_weight(e) == w, how, ": edge ", e); }); KCHECK(eq(got, want), how, ": neighbors of ", u);
    c = 0; g.neighbors(u, [&](EdgeID, NodeID) { ++c; return c > stop; }); KCHECK(c == std::min(d, stop + 1), how, ": neighbors of ", u, " stops after ", c);
    e0 = first; for (EdgeID e : g.incident_edges(u)) KCHECK(e == e0++, how, ": incident_edges of ", u); KCHECK(e0 == first + d, how, ": incident_edges of ", u);
    if (u % 7 == 0) { std::mutex mu; got.clear(); g.pfor_adjacent_nodes(u, lim, 1 + r.below(5), [&](NodeID v, EdgeWeight w) { std::lock_guard<std::mutex> l(mu); got.push_back({v, w}); }); Adj w2(want.begin(), want.begin() + std::min(lim, d)); std::sort(got.begin(), got.end()); std::sort(w2.begin(), w2.end()); KCHECK(eq(got, w2), how, ": pfor_adjacent_nodes of ", u);
      got.clear(); g.pfor_adjacent_nodes(u, lim, 1 + r.below(5), [&](auto &&l2) { std::vector<std::pair<u32, i32>> loc; l2([&](NodeID v, EdgeWeight w) { loc.push_back({v, w}); }); std::lock_guard<std::mutex> l(mu); got.insert(got.end(), loc.begin(), loc.end()); }); std::sort(got.begin(), got.end()); KCHECK(eq(got, w2), how, ": pfor_adjacent_nodes (indirect) of ", u); }
    first += d;
  }
  if (buckets) {
    KCHECK(g.sorted(), how, ": sorted flag"); std::vector<u32> size(40); u32 nb = 0; for (auto &a : h.adj) { u32 b = 0; u32 d = a.size(); while (d) { ++b; d >>= 1; } ++size[b]; nb = std::max(nb, b + 1); }
    KCHECK(g.number_of_buckets() == nb, how, ": ", g.number_of_buckets(), " buckets, expected ", nb); u32 f = 0;
    for (u32 b = 0; b < nb && b < g.number_of_buckets(); ++b) { KCHECK(g.bucket_size(b) == size[b] && g.first_node_in_bucket(b) == f && g.first_invalid_node_in_bucket(b) == f + size[b], how, ": bucket ", b, " = [", g.first_node_in_bucket(b), ", ", g.first_invalid_node_in_bucket(b), ")"); f += size[b]; }
  } else if (h.n) KCHECK(g.number_of_buckets() == 1 && g.first_node_in_bucket(0) == 0 && g.first_invalid_node_in_bucket(0) == h.n && g.bucket_size(0) == h.n, how, ": one bucket holds all nodes of an unsorted graph");
}
static void arrays(const HG &g, bool ew, StaticArray<EdgeID> &X, StaticArray<NodeID> &T, StaticArray<NodeWeight> &W, StaticArray<EdgeWeight> &C) {
  auto c = csr(g, ew); X = std::move(c->raw_nodes()); T = std::move(c->raw_edges()); W = std::move(c->raw_node_weights()); C = std::move(c->raw_edge_weights());
}
// relabel: nodes by degree bucket; isolated nodes first or last
static HG bucket_order(const HG &h, bool isolated_last) {
  std::vector<u32> o(h.n); std::iota(o.begin(), o.end(), 0); auto key = [&](u32 u) { u32 d = h.adj[u].size(), b = 0; while (d) { ++b; d >>= 1; } return isolated_last && !b ? 99u : b; };
  std::stable_sort(o.begin(), o.end(), [&](u32 a, u32 b) { return key(a) < key(b); }); std::vector<u32> p(h.n); for (u32 i = 0; i < h.n; ++i) p[o[i]] = i;
  HG q; q.n = h.n; q.name = h.name; for (u32 i = 0; i < h.n; ++i) { q.nw.push_back(h.nw[o[i]]); q.adj.push_back(h.adj[o[i]]); for (auto &e : q.adj.back()) e.first = p[e.first]; } return q;
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 1500 : 250;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    u32 n = i < 16 ? i / 2 : 1 + r.below(i % 9 ? 120 : 4000); i32 mw = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 3000), me = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 9000);
    HG h = random_graph(r, n, i < 16 ? (i & 1 ? 5 : 0) : r.below(8), mw, me); if (h.tew() >= (1ll << 31) || h.tnw() >= (1ll << 31)) continue; bool ew = r.coin();
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8));
    kvc::begin(kvc::str(h.name, ew ? " explicit weights" : "")); kvc::announce();
    StaticArray<EdgeID> X; StaticArray<NodeID> T; StaticArray<NodeWeight> W; StaticArray<EdgeWeight> C;
    auto par = csr(h, ew); check(*par, h, r, false, "parallel constructor");
    arrays(h, ew, X, T, W, C); { CSRGraph s(CSRGraph::seq{}, std::move(X), std::move(T), std::move(W), std::move(C)); check(s, h, r, false, "sequential constructor"); if (n) { CSRGraph t(std::move(s)); check(t, h, r, false, "moved"); } }
    { Graph g(std::move(par)); CSRGraph c(g); check(c, h, r, false, "copy of a graph"); }
    if (n) { arrays(h, ew, X, T, W, C); bool ok = debug::validate_graph(CSRGraph(std::move(X), std::move(T), std::move(W), std::move(C))); KCHECK(ok, "validate_graph rejects a valid graph"); }
    { arrays(h, ew, X, T, W, C); CSRGraph s = debug::sort_neighbors(CSRGraph(std::move(X), std::move(T), std::move(W), std::move(C))); HG q = h; for (auto &x : q.adj) std::sort(x.begin(), x.end()); if (n) check(s, q, r, false, "sort_neighbors"); }
    { HG q = bucket_order(h, false); arrays(q, ew, X, T, W, C); CSRGraph s(std::move(X), std::move(T), std::move(W), std::move(C), true); check(s, q, r, true, "sorted graph"); Graph g(std::make_unique<CSRGraph>(std::move(s))); if (n) { CSRGraph c(g); check(c, q, r, true, "copy of a sorted graph"); } 
      arrays(q, ew, X, T, W, C); CSRGraph t(CSRGraph::seq{}, std::move(X), std::move(T), std::move(W), std::move(C), true); check(t, q, r, true, "sorted graph (sequential)"); }
    { HG q = bucket_order(h, true); arrays(q, ew, X, T, W, C); u32 iso = 0; for (auto &x : q.adj) iso += x.empty(); CSRGraph s(std::move(X), std::move(T), std::move(W), std::move(C), true);
      HG w = q; w.n -= iso; w.adj.resize(w.n); w.nw.resize(w.n);
      for (int k = 0; k < (q.n ? 2 : 1); ++k) { s.remove_isolated_nodes(iso); check(s, w, r, true, "isolated nodes removed"); u32 back = s.integrate_isolated_nodes(); KCHECK(back == iso, "integrate_isolated_nodes returns ", back, ", expected ", iso);
        KCHECK(s.n() == q.n && s.total_node_weight() == q.tnw(), "isolated nodes are back: n = ", s.n(), ", total = ", s.total_node_weight()); for (u32 u = 0; u < q.n; ++u) KCHECK(s.degree(u) == q.adj[u].size() && s.node_weight(u) == q.nw[u], "node ", u, " after re-integration"); } }
  }
  return kvc::done();
}
