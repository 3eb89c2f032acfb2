// Bounded contract run for C17: the public partitioning interface on small and middle-sized graphs, every preset, weights, thread counts and ways of giving the balance constraint.
#include "graphs.h"
#include "kaminpar-shm/kaminpar.h"
#include "kaminpar-shm/datastructures/compressed_graph.h"
#include "kaminpar-shm/graphutils/compressed_graph_builder.h"
#undef V
#undef C
#include "kaminpar-common/environment.h"
namespace kaminpar { const std::string_view Environment::GIT_SHA1 = "", Environment::GIT_MODIFIED_FILES = "", Environment::HOSTNAME = ""; }
using namespace kg;
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 2500 : 160;
  const char *presets[] = {"default", "fast", "strong", "largek", "largek-fast", "largek-strong", "terapart", "terapart-strong", "terapart-largek", "jet", "4xjet", "noref", "vcycle", "restricted-vcycle", "fm"};
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    bool unit = r.below(3) != 0; u32 n = i < 12 ? i + 1 : r.below(10) == 0 ? 3000 + r.below(6000) : 1 + r.below(r.coin() ? 60 : 1500);
    i32 mw = unit ? 1 : 1 + r.below(r.coin() ? 4 : 60), me = r.coin() ? 1 : 1 + r.below(r.coin() ? 5 : 1000); const char *preset = presets[i % 15]; bool compressed = std::string(preset).find("terapart") == 0;
    HG g = random_graph(r, n, r.below(8), mw, me, compressed); u32 k = i % 5 == 0 ? 1 + r.below(3) : 1 + r.below(std::min<u32>(n, r.coin() ? 9 : 70)); if (i % 11 == 0) k = std::min<u32>(n, 64); int threads = 1 + r.below(8), mode = r.below(4); double eps = mode == 0 ? 0.03 : (1 + r.below(30)) / 100.0;
    auto ctx = create_context_by_preset_name(preset); i64 W = g.tnw(), mx = *std::max_element(g.nw.begin(), g.nw.end());
    std::string how = kvc::str(preset, ", ", g.name, ", k=", k, ", eps=", eps, ", ", threads, " threads, limits given as ", mode == 2 ? "block weights" : mode == 3 ? "fractions" : "eps"); kvc::begin(how); kvc::announce();
    KaMinPar s(threads, ctx); s.set_output_level(OutputLevel::QUIET); KaMinPar::reseed(r.below(1000));
    std::vector<EdgeID> X{0}; std::vector<NodeID> T; std::vector<NodeWeight> Wt; std::vector<EdgeWeight> Ew; for (u32 u = 0; u < n; ++u) { for (auto &e : g.adj[u]) { T.push_back(e.first); Ew.push_back(e.second); } X.push_back(T.size()); Wt.push_back(g.nw[u]); }
    auto X0 = X; auto T0 = T; auto W0 = Wt; auto E0 = Ew; bool give_w = mw > 1 || r.coin(), give_e = me > 1 || r.coin(), copy = r.coin();
    std::vector<std::vector<BlockID>> parts; int times = compressed ? 1 : 1 + (r.below(4) == 0);
    if (compressed) { auto plain = csr(g); s.context().compression.enabled = true; s.set_graph(Graph(std::make_unique<CompressedGraph>(CompressedGraphBuilder::compress(*plain)))); }
    else { std::span<NodeWeight> sw; std::span<EdgeWeight> se; if (give_w) sw = Wt; if (give_e) se = Ew; if (copy) s.copy_graph(X, T, sw, se); else s.borrow_and_mutate_graph(X, T, sw, se); }
    for (int t = 0; t < times && !kvc::g_fails; ++t) {
      std::vector<BlockID> p(n + 8, 0xABABABABu); std::span<BlockID> sp(p.data(), n); std::vector<i64> lim(k); i64 c;
      if (mode < 2) { c = mode == 0 ? s.compute_partition(k, sp) : s.compute_partition(k, eps, sp); for (auto &l : lim) l = (i64)((1.0 + eps) * std::ceil(1.0 * W / k)); }
      else { // heterogeneous limits
        std::vector<double> f(k); double sum = 0; for (auto &x : f) sum += x = 1 + r.below(4); for (auto &x : f) x = x / sum * (1.0 + eps) + 1.0 / W; std::vector<BlockWeight> bw(k); for (u32 j = 0; j < k; ++j) { bw[j] = std::ceil(f[j] * W); lim[j] = bw[j]; }
        c = mode == 2 ? s.compute_partition(bw, sp) : s.compute_partition(f, sp);
      }
      std::vector<i64> w(k, 0); for (u32 u = 0; u < n; ++u) { KCHECK(p[u] < k, how, ": node ", u, " is in block ", p[u]); if (p[u] < k) w[p[u]] += g.nw[u]; }
      for (u32 j = n; j < n + 8; ++j) KCHECK(p[j] == 0xABABABABu, how, ": the result is written beyond the given array");
      KCHECK(c == cut(g, p), how, ": reported cut ", c, ", the cut of the returned partition is ", cut(g, p));
      if (copy || compressed) KCHECK(X == X0 && T == T0 && Wt == W0 && Ew == E0, how, ": the input arrays were changed");
      if (unit && std::string(preset) != "noref" && std::string(preset) != "restricted-vcycle") for (u32 j = 0; j < k; ++j) KCHECK(w[j] <= lim[j], how, ": block ", j, " has weight ", w[j], ", limit ", lim[j]);
    }
  }
  return kvc::done();
}
