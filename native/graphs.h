// Random graphs for the bounded contract runs: an independent adjacency-list description and the real graph objects built from it.
#pragma once
#include "kvc.h"
#include <algorithm>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <tbb/global_control.h>
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-shm/datastructures/graph.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
namespace kg {
using namespace kaminpar; using namespace kaminpar::shm;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
struct HG { // host description
  u32 n = 0; std::vector<std::vector<std::pair<u32, i32>>> adj; std::vector<i32> nw; std::string name;
  u64 m() const { u64 s = 0; for (auto &a : adj) s += a.size(); return s; }
  i64 tnw() const { i64 s = 0; for (i32 x : nw) s += x; return s; }
  i64 tew() const { i64 s = 0; for (auto &a : adj) for (auto &e : a) s += e.second; return s; }
};
inline void finish(HG &g, kvc::Rng &r, bool sorted) {
  for (auto &a : g.adj) { if (sorted) std::sort(a.begin(), a.end()); else for (std::size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r.below(i)]); }
}
// n nodes; style: 0 sparse random, 1 dense, 2 star(s), 3 path/grid, 4 cliques with bridges, 5 no edges, 6 isolated nodes mixed with a random graph, 7 power law
inline HG random_graph(kvc::Rng &r, u32 n, int style, i32 maxnw, i32 maxew, bool sorted = false) {
  HG g; g.n = n; g.adj.resize(n); g.nw.resize(n);
  std::vector<std::pair<u32, u32>> es; std::set<std::pair<u32, u32>> seen;
  auto add = [&](u32 a, u32 b) { if (a == b || n == 0) return; if (a > b) std::swap(a, b); if (seen.insert({a, b}).second) es.push_back({a, b}); };
  switch (style) {
  case 0: for (u64 i = 0; i < 3ull * n; ++i) add(r.below(n), r.below(n)); break;
  case 1: for (u32 a = 0; a < n; ++a) for (u32 b = 0; b < a; ++b) if (r.below(3)) { if (n < 300 || r.below(n / 100 + 1) == 0) add(a, b); } break;
  case 2: { u32 c = 1 + r.below(3); for (u32 a = 0; a < n; ++a) add(a, r.below(std::min(c, n ? n : 1))); for (u32 i = 0; i < n / 4; ++i) add(r.below(n), r.below(n)); break; }
  case 3: { u32 w = 1 + r.below(20); for (u32 a = 0; a < n; ++a) { if (a + 1 < n) add(a, a + 1); if (a + w < n) add(a, a + w); } break; }
  case 4: { u32 c = 2 + r.below(7); for (u32 a = 0; a < n; ++a) for (u32 b = a - a % c; b < a; ++b) add(a, b); for (u32 a = 0; a + c < n; a += c) add(a, a + c); break; }
  case 5: break;
  case 6: for (u64 i = 0; i < n; ++i) { u32 h = n / 2 + 1; add(2 * r.below(h) % n, 2 * r.below(h) % n); } break;
  default: for (u64 i = 0; i < 4ull * n; ++i) add(r.below(n), r.below(1 + r.below(1 + r.below(n)))); break;
  }
  for (auto [a, b] : es) { i32 w = maxew <= 1 ? 1 : (i32)r.in(1, maxew); g.adj[a].push_back({b, w}); g.adj[b].push_back({a, w}); }
  for (u32 u = 0; u < n; ++u) g.nw[u] = maxnw <= 1 ? 1 : (i32)r.in(1, maxnw);
  finish(g, r, sorted);
  g.name = kvc::str("graph n=", n, " m=", g.m(), " style=", style, " maxnw=", maxnw, " maxew=", maxew);
  return g;
}
template <typename T> StaticArray<T> sa(const std::vector<T> &v) { StaticArray<T> s(v.size(), static_array::seq); for (std::size_t i = 0; i < v.size(); ++i) s[i] = v[i]; return s; }
// unit weights may be given explicitly or left out, as the file readers do
inline std::unique_ptr<CSRGraph> csr(const HG &g, bool explicit_w = true) {
  StaticArray<EdgeID> X(g.n + 1, static_array::seq); StaticArray<NodeID> T(g.m(), static_array::seq);
  bool uw = true, ue = true; for (i32 x : g.nw) uw &= x == 1; for (auto &a : g.adj) for (auto &e : a) ue &= e.second == 1;
  StaticArray<NodeWeight> W; StaticArray<EdgeWeight> C; if (!uw || explicit_w) W.resize(g.n, static_array::seq); if (!ue || explicit_w) C.resize(g.m(), static_array::seq);
  u64 p = 0; X[0] = 0; for (u32 u = 0; u < g.n; ++u) { for (auto &e : g.adj[u]) { T[p] = e.first; if (C.size()) C[p] = e.second; ++p; } X[u + 1] = p; if (W.size()) W[u] = g.nw[u]; }
  return std::make_unique<CSRGraph>(std::move(X), std::move(T), std::move(W), std::move(C));
}
inline std::unique_ptr<Graph> wrap(std::unique_ptr<CSRGraph> c) { return std::make_unique<Graph>(std::move(c)); }
inline std::unique_ptr<Graph> graph(const HG &g, bool explicit_w = true) { return wrap(csr(g, explicit_w)); }
// the description of a real graph, for comparisons
template <typename G> HG host(const G &g) {
  HG h; h.n = g.n(); h.adj.resize(h.n); h.nw.resize(h.n);
  for (u32 u = 0; u < h.n; ++u) { h.nw[u] = g.node_weight(u); g.adjacent_nodes(u, [&](NodeID v, EdgeWeight w) { h.adj[u].push_back({v, w}); }); }
  return h;
}
inline std::vector<u32> random_partition(kvc::Rng &r, const HG &g, u32 k, int style = 0) {
  std::vector<u32> p(g.n); for (u32 u = 0; u < g.n; ++u) p[u] = style == 0 ? r.below(k) : style == 1 ? std::min<u64>(k - 1, (u64)u * k / std::max(1u, g.n)) : style == 2 ? r.below(1 + r.below(k)) : 0; return p;
}
inline i64 cut(const HG &g, const std::vector<u32> &p) { i64 c = 0; for (u32 u = 0; u < g.n; ++u) for (auto &e : g.adj[u]) if (p[u] != p[e.first]) c += e.second; return c / 2; }
inline std::vector<i64> weights(const HG &g, const std::vector<u32> &p, u32 k) { std::vector<i64> w(k); for (u32 u = 0; u < g.n; ++u) if (p[u] < k) w[p[u]] += g.nw[u]; return w; }
} // namespace kg
