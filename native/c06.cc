// Bounded contract run for C06: real partitioned graphs, sequential histories and concurrent threads.
#include "graphs.h"
#include <atomic>
#include <thread>
using namespace kg;
const int TH = 8;
template <typename PG> void same(const PG &pg, const HG &h, const std::vector<u32> &p, u32 k, const char *at) {
  auto w = weights(h, p, k);
  KCHECK(pg.k() == k, at, ": k = ", pg.k()); if (kvc::g_fails) return;
  for (u32 u = 0; u < h.n && !kvc::g_fails; ++u) KCHECK(pg.block(u) == p[u], at, ": node ", u, " in block ", pg.block(u), ", expected ", p[u]);
  for (u32 b = 0; b < k && !kvc::g_fails; ++b) KCHECK(pg.block_weight(b) == w[b] && pg.raw_block_weights()[b] == w[b], at, ": block ", b, " weighs ", pg.block_weight(b), ", its nodes ", w[b]);
}
template <typename PG> void history(PG &pg, const HG &h, std::vector<u32> p, u32 k, kvc::Rng &r, int ops) {
  auto w = weights(h, p, k);
  for (int i = 0; i < ops && !kvc::g_fails; ++i) {
    u32 u = r.below(h.n), to = r.below(std::min(k, 1u + (u32)r.below(k))), from = p[u];
    switch (r.below(3)) {
    case 0: pg.set_block(u, to); if (from != kInvalidBlockID) w[from] -= h.nw[u]; w[to] += h.nw[u]; p[u] = to; break;
    case 1: {
      if (from == kInvalidBlockID || from == to) break;
      i64 lim = std::min<i64>(w[to] + h.nw[u] + r.in(-2, 1), 1 << 30); bool ok = pg.move(u, from, to, lim), want = w[to] + h.nw[u] <= lim;
      KCHECK(ok == want, "move of weight ", h.nw[u], " into ", w[to], " with limit ", lim, " returned ", ok);
      if (ok) { w[from] -= h.nw[u]; w[to] += h.nw[u]; p[u] = to; } break;
    }
    default: {
      u32 f = r.below(k); if (f == to) break; i32 d = r.below(w[f] + 1); i64 lim = std::min<i64>(w[to] + d + r.in(-1, 1), 1 << 30); bool ok = pg.move_block_weight(f, to, d, lim), want = w[to] + d <= lim;
      KCHECK(ok == want, "shift of ", d, " into ", w[to], " with limit ", lim, " returned ", ok); if (ok) { w[f] -= d; w[to] += d; KCHECK(pg.move_block_weight(to, f, d, w[f] + d), "shifting the weight back failed"); w[f] += d; w[to] -= d; }
    }
    }
    KCHECK(pg.block(u) == p[u], "node ", u, " in block ", pg.block(u), ", expected ", p[u]); KCHECK(pg.block_weight(to) == w[to], "block ", to, " weighs ", pg.block_weight(to), ", expected ", w[to]);
  }
  same(pg, h, p, k, "after the history");
}
template <typename PG> void threads(PG &pg, const HG &h, u32 k, kvc::Rng &r, int rounds) { // disjoint nodes per thread, shared blocks
  std::vector<i64> w0; for (u32 b = 0; b < k; ++b) w0.push_back(pg.block_weight(b));
  bool shifts = r.below(3) == 0; std::vector<i64> lim(k); for (u32 b = 0; b < k; ++b) lim[b] = w0[b] + r.below(5) * r.below(3);
  std::atomic<bool> stop{false}, bad{false}; std::atomic<int> go{0}; std::string what; std::vector<u64> seeds; for (int t = 0; t < TH; ++t) seeds.push_back(r.next());
  std::vector<std::thread> ts;
  for (int t = 0; t < TH; ++t) ts.emplace_back([&, t] {
    kvc::Rng q(seeds[t]); ++go; while (go < TH) {}
    for (int i = 0; i < rounds; ++i) {
      u32 u = t + TH * q.below((h.n - t + TH - 1) / TH); if (u >= h.n) continue; u32 f = pg.block(u), to = q.below(k); if (f == to) continue;
      bool ok = pg.move(u, f, to, lim[to]); u32 now = pg.block(u); if (now != (ok ? to : f)) bad = true;
      if (shifts && q.coin()) { u32 a = q.below(k), b = q.below(k); if (a != b) { bool s = pg.move_block_weight(a, b, 1, lim[b]); if (s) { pg.increase_block_weight(a, 1); pg.decrease_block_weight(b, 1); } } }
    }
  });
  std::thread mon([&] { while (!stop) for (u32 b = 0; b < k; ++b) if (!shifts && pg.block_weight(b) > lim[b]) bad = true; });
  for (auto &t : ts) t.join(); stop = true; mon.join();
  KCHECK(!bad, "a block exceeded its limit or a move was not all-or-nothing");
  std::vector<u32> p(h.n); for (u32 u = 0; u < h.n; ++u) p[u] = pg.block(u);
  same(pg, h, p, k, "after concurrent moves");
  for (u32 b = 0; b < k && !shifts; ++b) KCHECK(pg.block_weight(b) <= lim[b], "block ", b, " ended above its limit");
  // concurrent assignment of every node
  std::vector<std::thread> ss; for (int t = 0; t < TH; ++t) ss.emplace_back([&, t] { kvc::Rng q(seeds[t] + 1); for (u32 u = t; u < h.n; u += TH) { pg.set_block(u, q.below(k)); pg.set_block(u, q.below(k)); } });
  for (auto &t : ss) t.join(); for (u32 u = 0; u < h.n; ++u) p[u] = pg.block(u);
  same(pg, h, p, k, "after concurrent assignments");
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); tbb::global_control gc(tbb::global_control::max_allowed_parallelism, TH);
  int N = kvc::g_thorough ? 600 : 160;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    u32 n = i < 12 ? 1 + i : 1 + r.below(i % 5 ? 60 : 3000), k = i % 10 == 9 ? 65530 + r.below(12) : 1 + r.below(i % 3 ? 8 : 100);
    HG h = random_graph(r, n, i % 8, i % 4 ? 1 + r.below(i % 4 == 1 ? 5 : 2000) : 1, 1 + r.below(4)); auto g = graph(h, r.coin()); auto c = csr(h);
    std::vector<u32> p = random_partition(r, h, k, i % 3); int un = i % 3; if (un) for (u32 u = 0; u < n; ++u) if (r.below(un == 1 ? 5 : 1) == 0) p[u] = kInvalidBlockID;
    kvc::begin(kvc::str(h.name, " k=", k, " unassigned=", un)); kvc::announce();
    { PartitionedGraph pg(*g, k, sa(p)); same(pg, h, p, k, "constructor"); history(pg, h, p, k, r, 200); }
    { PartitionedGraph pg(PartitionedGraph::seq{}, *g, k, sa(p)); same(pg, h, p, k, "sequential constructor"); history(pg, h, p, k, r, 50); }
    { PartitionedCSRGraph pg(*c, k); same(pg, h, std::vector<u32>(n, kInvalidBlockID), k, "unassigned"); history(pg, h, std::vector<u32>(n, kInvalidBlockID), k, r, 200); }
    { PartitionedCSRGraph pg(PartitionedCSRGraph::seq{}, *c, k); same(pg, h, std::vector<u32>(n, kInvalidBlockID), k, "unassigned, sequential"); }
    { auto w = weights(h, p, k); std::vector<i32> v(w.begin(), w.end()); PartitionedCSRGraph pg(*c, k, sa(p), sa(v)); same(pg, h, p, k, "given weights"); history(pg, h, p, k, r, 50);
      PartitionedCSRGraph q(std::move(pg)); KCHECK(q.k() == k, "moved object"); }
  }
  for (int i = 0; i < (kvc::g_thorough ? 200 : 40) && !kvc::g_fails; ++i) {
    u32 k = 2 + r.below(i % 2 ? 2 : 6); HG h = random_graph(r, 64 + r.below(400), 5, 1 + r.below(4), 1); auto c = csr(h);
    kvc::begin(kvc::str(h.name, " k=", k, " threads=", TH)); kvc::announce(); PartitionedCSRGraph pg(*c, k, sa(random_partition(r, h, k))); threads(pg, h, k, r, 4000);
  }
  return kvc::done();
}
