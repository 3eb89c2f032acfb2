// Bounded contract run for C12: every gain cache against the definition, after initialization, histories of moves, concurrent moves and through delta caches.
#include "graphs.h"
#include <tbb/parallel_for.h>
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/datastructures/delta_partitioned_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#include "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/dense_gain_cache.h"
#include "kaminpar-shm/refinement/gains/hashing_gain_cache.h"
#include "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h"
#include "kaminpar-shm/refinement/gains/sparse_gain_cache.h"
#include "kaminpar-common/degree_buckets.h"
#undef V
#undef C
using namespace kg;
// nodes in the order of their degree buckets, as a sorted graph stores them
static HG by_bucket(const HG &g) {
  std::vector<u32> ord(g.n), pos(g.n); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](u32 a, u32 b) { return degree_bucket<EdgeID>(g.adj[a].size()) < degree_bucket<EdgeID>(g.adj[b].size()); });
  for (u32 i = 0; i < g.n; ++i) pos[ord[i]] = i;
  HG h; h.n = g.n; h.adj.resize(g.n); h.nw.resize(g.n); h.name = g.name + " sorted by degree"; for (u32 i = 0; i < g.n; ++i) { h.nw[i] = g.nw[ord[i]]; for (auto &e : g.adj[ord[i]]) h.adj[i].push_back({pos[e.first], e.second}); } return h;
}
static std::unique_ptr<CSRGraph> sorted_csr(const HG &g) {
  StaticArray<EdgeID> X(g.n + 1, static_array::seq); StaticArray<NodeID> T(g.m(), static_array::seq); StaticArray<NodeWeight> W(g.n, static_array::seq); StaticArray<EdgeWeight> E(g.m(), static_array::seq); u64 p = 0; X[0] = 0;
  for (u32 u = 0; u < g.n; ++u) { for (auto &e : g.adj[u]) { T[p] = e.first; E[p] = e.second; ++p; } X[u + 1] = p; W[u] = g.nw[u]; }
  return std::make_unique<CSRGraph>(std::move(X), std::move(T), std::move(W), std::move(E), true);
}
static i64 conn(const HG &g, const std::vector<u32> &p, u32 u, u32 b) { i64 s = 0; for (auto &e : g.adj[u]) if (p[e.first] == b) s += e.second; return s; }
template <class GC, class P> static void check(const GC &gc, const HG &g, const std::vector<u32> &p, u32 k, kvc::Rng &r, const std::string &how, bool exact, bool all, P is_border) {
  for (int i = 0; i < 40 && g.n && !kvc::g_fails; ++i) {
    u32 u = i < (int)g.n && g.n <= 40 ? i : r.below(g.n), from = p[u]; std::vector<i64> c(k, 0); for (auto &e : g.adj[u]) c[p[e.first]] += e.second;
    for (int j = 0; j < 6; ++j) {
      u32 b = r.coin() && !g.adj[u].empty() ? p[g.adj[u][r.below(g.adj[u].size())].first] : r.below(k); KCHECK(gc.conn(u, b) == c[b], how, ": conn(", u, ", ", b, ") is ", gc.conn(u, b), ", expected ", c[b], " (degree ", g.adj[u].size(), ")");
      if (b != from) KCHECK(gc.gain(u, from, b) == c[b] - c[from], how, ": gain(", u, ", ", from, ", ", b, ") is ", gc.gain(u, from, b), ", expected ", c[b] - c[from]);
      u32 b2 = r.below(k); if (b2 != from && b != from && b2 != b) { auto q = const_cast<GC &>(gc).gain(u, from, std::pair<BlockID, BlockID>(b, b2)); KCHECK(q.first == c[b] - c[from] && q.second == c[b2] - c[from], how, ": gains of ", u, " to ", b, " and ", b2, " are ", q.first, " and ", q.second); }
    }
    is_border(u, c[from] != std::accumulate(c.begin(), c.end(), i64(0)));
    std::map<u32, std::vector<i64>> got; gc.gains(u, from, [&](BlockID to, auto &&gain) { got[to].push_back(gain()); }); i64 base = exact ? c[from] : 0;
    for (auto &[to, vs] : got) { KCHECK(to < k && to != from, how, ": gains() of ", u, " visits block ", to); if (kvc::g_fails) return; for (i64 v : vs) KCHECK(v == c[to] - base, how, ": gains() of ", u, " in block ", from, " reports ", v, " for block ", to, ", expected ", c[to] - base); }
    for (u32 b = 0; b < k; ++b) if (b != from && (all || c[b] > 0)) KCHECK(got.count(b), how, ": gains() of ", u, " does not visit block ", b, " although ", all ? "all blocks are visited" : "it is adjacent");
  }
}
template <class G, template <class> class GCT> static void delta(const GCT<G> &gc, const HG &g, PartitionedGraph &pg, const std::vector<u32> &p0, u32 k, kvc::Rng &r, const std::string &how) {
  using GC = GCT<G>; DeltaPartitionedGraph d(&pg); typename GC::DeltaGainCache dc(gc, d);
  for (int round = 0; round < 2 && !kvc::g_fails; ++round) {
    auto p = p0; std::vector<i64> w(k, 0); for (u32 u = 0; u < g.n; ++u) w[p[u]] += g.nw[u]; std::set<u32> moved; int mv = r.below(40);
    for (int i = 0; i < mv && g.n && !kvc::g_fails; ++i) {
      u32 u = r.below(g.n), to = r.below(k); if (to == p[u]) continue; d.set_block(u, to); dc.move(u, p[u], to); w[p[u]] -= g.nw[u]; w[to] += g.nw[u]; p[u] = to; moved.insert(u);
      if (i % 8 == 0) check(dc, g, p, k, r, how + ", delta", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, [](u32, bool) {});
    }
    check(dc, g, p, k, r, how + ", delta", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, [](u32, bool) {});
    for (u32 u = 0; u < g.n; ++u) { KCHECK(d.block(u) == p[u], how, ": delta graph has ", u, " in block ", d.block(u), ", expected ", p[u]); KCHECK(pg.block(u) == p0[u], how, ": the delta graph changed the partition"); }
    for (u32 b = 0; b < k; ++b) KCHECK(d.block_weight(b) == w[b], how, ": delta block weight"); KCHECK(d.size() == moved.size(), how, ": delta size ", d.size(), ", expected ", moved.size()); std::set<u32> seen; d.for_each([&](NodeID u, BlockID b) { KCHECK(seen.insert(u).second && p[u] == b, how, ": delta lists ", u); }); KCHECK(seen == moved, how, ": delta lists ", seen.size(), " nodes");
    d.clear(); dc.clear(); check(dc, g, p0, k, r, how + ", cleared delta", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, [](u32, bool) {});
    for (u32 b = 0; b < k; ++b) KCHECK(d.block_weight(b) == pg.block_weight(b), how, ": cleared delta block weight");
  }
}
static const AbstractGraph *under(const Graph &g) { const AbstractGraph *x = nullptr; g.reified([&](const auto &h) { x = &h; }); return x; }
struct Case { HG g; std::unique_ptr<Graph> graph; u32 k; };
template <template <class> class GCT, class G> static void run(const char *nm, std::vector<Case *> &cs, const Context &ctx, kvc::Rng &r, bool withdelta = true) {
  using GC = GCT<G>; u32 pn = r.coin() ? 0 : cs[0]->g.n, pk = 0; for (auto *c : cs) pk = std::max(pk, c->k); GC gc(ctx, pn, pk); // one cache for a history of graphs
  for (auto *cp : cs) {
    Case &c = *cp; const HG &g = c.g; const G *graph = dynamic_cast<const G *>(under(*c.graph)); if constexpr (std::is_same_v<G, Graph>) graph = c.graph.get(); if (!graph) continue; u32 k = c.k; auto p = random_partition(r, g, k, r.below(4)); StaticArray<BlockID> part(g.n, static_array::seq); for (u32 u = 0; u < g.n; ++u) part[u] = p[u];
    PartitionedGraph pg(*c.graph, k, std::move(part)); std::string how = kvc::str(nm, std::is_same_v<G, CompressedGraph> ? " (compressed)" : "", ", ", g.name, ", k=", k); kvc::begin(how); kvc::announce(); gc.initialize(*graph, pg);
    auto border = [&](u32 u, bool e) { KCHECK(gc.is_border_node(u, p[u]) == e, how, ": is_border_node(", u, ") is ", !e, " (degree ", g.adj[u].size(), ")"); };
    check(gc, g, p, k, r, how, GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, border);
    for (int i = 0, mv = r.below(60); i < mv && g.n && !kvc::g_fails; ++i) { u32 u = r.below(g.n), to = r.below(k); if (to == p[u]) continue; pg.set_block(u, to); gc.move(u, p[u], to); p[u] = to; if (i % 16 == 0) check(gc, g, p, k, r, how + ", after moves", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, border); }
    check(gc, g, p, k, r, how + ", after moves", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, border);
    if constexpr (std::is_same_v<G, CSRGraph> || std::is_same_v<G, Graph>) if (withdelta && !kvc::g_fails) delta<G, GCT>(gc, g, pg, p, k, r, how);
    if (k > 1 && g.n && !kvc::g_fails) { // every node moved at most once, concurrently
      std::vector<u32> to(g.n); for (u32 u = 0; u < g.n; ++u) to[u] = r.coin() ? p[u] : r.below(k);
      tbb::parallel_for<u32>(0, g.n, [&](u32 u) { if (to[u] != p[u]) { pg.set_block(u, to[u]); gc.move(u, p[u], to[u]); } }); p = to; check(gc, g, p, k, r, how + ", after concurrent moves", GC::kIteratesExactGains, GC::kIteratesNonadjacentBlocks, border);
    }
    if (kvc::g_fails) return;
  }
  gc.free();
}
template <class G> using ExactSparse = SparseGainCache<G, GenericDeltaGainCache, true, true>;
template <class G> using ExactDenseLK = DenseGainCache<G, LargeKGenericDeltaGainCache, false, true>;
template <class G> using ExactHash = HashingGainCache<G, GenericDeltaGainCache, true, true>;
template <class G> using ExactCompactLK = CompactHashingGainCache<G, LargeKGenericDeltaGainCache, false, true>;
template <class G> using FlyAdj = OnTheFlyGainCache<G>;
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 1500 : 90;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8)); Context ctx{};
    ctx.refinement.kway_fm.k_based_high_degree_threshold = r.coin() ? 1 : r.below(3); ctx.refinement.kway_fm.constant_high_degree_threshold = r.coin() ? 0 : r.below(40);
    std::vector<Case> cases(1 + r.below(4)); std::vector<Case *> cs; int kind = r.below(3); bool big = i % 15 == 14;
    for (auto &c : cases) {
      u32 n = i < 10 ? i : big ? 2000 + r.below(8000) : 1 + r.below(r.coin() ? 40 : 400); i32 mw = r.coin() ? 1 : 1 + r.below(1000), me = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 3000);
      HG g = random_graph(r, n, i < 10 ? 1 : big ? (r.coin() ? 0 : 2) : r.below(8), mw, me, kind == 2); c.k = r.below(5) == 0 ? 2 : i % 7 == 6 ? 1 + r.below(3) : 2 + r.below(r.coin() ? 6 : big ? 60 : 150);
      if (kind == 1) { c.g = by_bucket(g); c.graph = std::make_unique<Graph>(sorted_csr(c.g)); } else if (kind == 2) { c.g = g; auto plain = csr(g); c.graph = std::make_unique<Graph>(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(*plain))); } else { c.g = g; c.graph = graph(g); }
      if (c.k < 2 && r.coin()) c.k = 2; cs.push_back(&c);
    }
    auto both = [&]<class G>(std::type_identity<G>) {
#if PART == 0
      run<NormalSparseGainCache, G>("sparse gain cache", cs, ctx, r); run<LargeKSparseGainCache, G>("sparse gain cache for large k", cs, ctx, r); run<ExactSparse, G>("sparse gain cache, exact", cs, ctx, r);
#elif PART == 1
      run<NormalHashingGainCache, G>("hashing gain cache", cs, ctx, r); run<LargeKHashingGainCache, G>("hashing gain cache for large k", cs, ctx, r); run<ExactHash, G>("hashing gain cache, exact", cs, ctx, r);
#elif PART == 2
      run<NormalCompactHashingGainCache, G>("compact hashing gain cache", cs, ctx, r); run<LargeKCompactHashingGainCache, G>("compact hashing gain cache for large k", cs, ctx, r); run<ExactCompactLK, G>("compact hashing gain cache for large k, exact", cs, ctx, r);
#else
      run<NormalDenseGainCache, G>("dense gain cache", cs, ctx, r); run<NormalOnTheFlyGainCache, G>("on-the-fly gain cache", cs, ctx, r); run<LargeKDenseGainCache, G>("dense gain cache for large k", cs, ctx, r); run<ExactDenseLK, G>("dense gain cache for large k, exact", cs, ctx, r);
#endif
    };
    if (kind == 2) both(std::type_identity<CompressedGraph>()); else both(std::type_identity<CSRGraph>());
    if (PART == 0 && kind == 0 && i % 3 == 0) run<NormalSparseGainCache, Graph>("sparse gain cache on the graph interface", cs, ctx, r, false);
  }
  return kvc::done();
}
