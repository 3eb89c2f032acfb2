// Bounded contract run for C08: metrics against their definitions.
#include "graphs.h"
#include <cmath>
#include "kaminpar-shm/kaminpar.h"
namespace kaminpar::shm { BlockID compute_final_k(BlockID, BlockID, BlockID); }
#include "kaminpar-shm/metrics.h"
using namespace kg;
template <typename PG> void check(const PG &pg, const HG &h, const std::vector<u32> &p, u32 k, kvc::Rng &r, const AbstractGraph &ag) {
  i64 c = cut(h, p); auto w = weights(h, p, k); i64 W = h.tnw();
  KCHECK(metrics::edge_cut(pg) == c, "edge_cut = ", metrics::edge_cut(pg), ", expected ", c);
  KCHECK(metrics::edge_cut_seq(pg) == c, "edge_cut_seq = ", metrics::edge_cut_seq(pg), ", expected ", c);
  i64 perfect = (W + k - 1) / k, mx = *std::max_element(w.begin(), w.end()); double want = W ? std::max(0.0, (double)mx / (double)perfect - 1.0) : 0;
  if (W) KCHECK(std::fabs(metrics::imbalance(pg) - want) < 1e-9, "imbalance = ", metrics::imbalance(pg), ", expected ", want);
  for (int i = 0; i < 6; ++i) {
    std::vector<BlockWeight> lim(k); for (u32 b = 0; b < k; ++b) lim[b] = i == 0 ? w[b] : i == 1 ? std::max<i64>(0, w[b] + r.in(-1, 1)) : i == 2 ? perfect : r.below(2 * perfect + 2);
    if (i == 3) { lim.assign(k, 0); for (u32 b = 0; b < k; ++b) lim[b] = w[b] + 5; lim[r.below(k)] -= 5 + (r.coin() && i ? 1 : 0); for (auto &x : lim) x = std::max(x, 0); }
    if (i == 4) { for (u32 b = 0; b < k; ++b) lim[b] = w[b]; lim[k - 1] = std::max<i64>(0, lim[k - 1] - 1); }
    PartitionContext ctx; ctx.setup(ag, lim); i64 over = 0; bool bal = true; for (u32 b = 0; b < k; ++b) { over += std::max<i64>(0, w[b] - lim[b]); bal &= w[b] <= lim[b]; KCHECK(ctx.max_block_weight(b) == lim[b], "limit of block ", b); }
    KCHECK(metrics::total_overload(pg, ctx) == over, "total_overload = ", metrics::total_overload(pg, ctx), ", expected ", over);
    KCHECK(metrics::is_balanced(pg, ctx) == bal, "is_balanced = ", !bal); KCHECK(metrics::is_feasible(pg, ctx) == bal, "is_feasible = ", !bal);
  }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 3000 : 500;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    u32 n = i < 12 ? 1 + i : 1 + r.below(i % 7 ? 80 : 4000), k = 1 + r.below(i % 3 ? 8 : 200);
    HG h = random_graph(r, n, r.below(8), r.coin() ? 1 + r.below(r.coin() ? 5 : 5000) : 1, r.coin() ? 1 + r.below(r.coin() ? 4 : 20000) : 1);
    if (h.tew() > (1ll << 31) - 1) continue;
    auto p = random_partition(r, h, k, i % 4); tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8));
    kvc::begin(kvc::str(h.name, " k=", k, " partition style ", i % 4)); kvc::announce(); auto g = graph(h, r.coin()); auto c = csr(h);
    { PartitionedGraph pg(*g, k, sa(p)); check(pg, h, p, k, r, *c); }
    { PartitionedCSRGraph pg(PartitionedCSRGraph::seq{}, *c, k, sa(p)); check(pg, h, p, k, r, *c); }
  }
  // heavy edges: the directed sum is close to 2^31
  for (int i = 0; i < 20 && !kvc::g_fails; ++i) {
    HG h; u32 n = h.n = 40; h.adj.resize(n); h.nw.assign(n, 1); for (u32 u = 0; u + 1 < n; ++u) { i32 w = 20000000 + r.below(5000000); h.adj[u].push_back({u + 1, w}); h.adj[u + 1].push_back({u, w}); }
    std::vector<u32> p(n); for (u32 u = 0; u < n; ++u) p[u] = u % 2; h.name = "path with heavy edges"; kvc::begin(h.name); auto c = csr(h); PartitionedCSRGraph pg(*c, 2, sa(p));
    KCHECK(metrics::edge_cut(pg) == cut(h, p), "edge_cut = ", metrics::edge_cut(pg), ", expected ", cut(h, p)); KCHECK(metrics::edge_cut_seq(pg) == cut(h, p), "edge_cut_seq = ", metrics::edge_cut_seq(pg), ", expected ", cut(h, p));
  }
  return kvc::done();
}
