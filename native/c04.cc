// Bounded contract run for C04.
#include "kvc.h"
#include <concepts>
#include <atomic>
#include <memory>
#include <tbb/task_arena.h>
#include <tbb/global_control.h>
#include "kaminpar-common/math.h"
#include "kaminpar-common/parallel/loops.h"
using namespace kaminpar;
typedef std::uint64_t u64; typedef std::uint32_t u32;
template <typename T> void tile(T n, T s, bool full, kvc::Rng &r) {
  kvc::begin(kvc::str("n=", n, " size=", s)); typedef unsigned __int128 L;
  T pe = 0;
  for (T k = 0; k < s; k += full ? 1 : 1 + (T)r.below(s / 50 + 1)) { auto [f, t] = math::compute_local_range<T>(n, s, k); L q = n / s, m = n % s; L ef = (L)k * q + std::min<L>(k, m), et = (L)(k + 1) * q + std::min<L>(k + 1, m);
    KCHECK(f == ef && t == et, "range of rank ", k, " is [", f, ",", t, ")"); if (full) { KCHECK(f == pe, "gap or overlap at rank ", k); pe = t; for (T e = f; e < t; ++e) KCHECK(math::compute_local_range_rank<T>(n, s, e) == k, "rank of element ", e); } if (kvc::g_fails) return; }
  if (full) KCHECK(pe == n, "ranges end at ", pe);
  else for (int i = 0; i < 50; ++i) if (n) { T e = (T)r.below(n); auto k = math::compute_local_range_rank<T>(n, s, e); KCHECK(k < s, "rank out of range"); auto [f, t] = math::compute_local_range<T>(n, s, (T)k); KCHECK(f <= e && e < t, "rank of element ", e, " is ", k); }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed);
  for (u32 n = 0; n <= 120; ++n) for (u32 s = 1; s <= 40; ++s) { tile<u32>(n, s, true, r); tile<u64>(n, s, true, r); }
  for (int i = 0; i < (kvc::g_thorough ? 20000 : 600); ++i) { tile<u32>((u32)r.skew(), 1 + (u32)r.below(5000), false, r); tile<u64>(r.skew() >> 1, 1 + r.below(5000), false, r); tile<u64>(r.skew() >> 1, 1 + (r.skew() >> 1) % 300, false, r); }
  for (int i = 0; i < 20000; ++i) { std::vector<u64> d(2 + r.below(12)); for (std::size_t k = 1; k < d.size(); ++k) d[k] = d[k - 1] + r.below(4) * (r.below(50) ? 1 : 1ull << 40); if (!d.back()) continue; u64 v = r.coin() ? r.below(d.back()) : d[r.below(d.size())]; if (v >= d.back()) continue;
    kvc::begin(kvc::str("find_in_distribution value ", v, " of ", d.size() - 1, " ranges")); auto k = math::find_in_distribution<u64>(v, d); KCHECK(k + 1 < d.size() && d[k] <= v && v < d[k + 1], "index ", k); }
  for (int p = 1; p <= 8; ++p) { tbb::global_control gc(tbb::global_control::max_allowed_parallelism, p); tbb::task_arena ar(p); ar.execute([&] {
    for (int i = 0; i < (kvc::g_thorough ? 400 : 40); ++i) { u32 n = r.below(i % 3 ? 20000 : 12), off = r.below(1000); std::unique_ptr<std::atomic<int>[]> c(new std::atomic<int>[n + 1]()), o(new std::atomic<int>[n + 1]()); kvc::begin(kvc::str("deterministic_for n=", n, " threads=", p)); std::atomic<int> bad = 0, chunks = 0;
      int np = parallel::deterministic_for<u32>(off, off + n, [&](u32 f, u32 t, int cpu) { if (f < off || t > off + n || f > t || cpu < 0) bad = 1; else { for (u32 x = f; x < t; ++x) { c[x - off]++; o[x - off] = cpu; } } ++chunks; });
      KCHECK(!bad, "range outside the loop bounds"); KCHECK(np == chunks, "announced ", np, " chunks, ran ", chunks.load()); for (u32 x = 0; x < n; ++x) { KCHECK(c[x] == 1, "element ", x, " visited ", c[x].load(), " times"); KCHECK(!x || o[x] >= o[x - 1], "chunks out of order"); if (kvc::g_fails) break; }
      std::vector<std::vector<int>> bu(1 + r.below(9)); std::size_t tot = 0; for (auto &v : bu) { v.assign(r.below(3) ? r.below(i % 3 ? 3000 : 4) : 0, 0); tot += v.size(); } kvc::begin(kvc::str("chunked_for ", bu.size(), " buffers, ", tot, " elements, threads=", p)); std::atomic<int> wrong = 0;
      if (tot) { parallel::chunked_for(bu, [&](int &x, int k) { __atomic_fetch_add(&x, k + 1, __ATOMIC_RELAXED); }); for (std::size_t k = 0; k < bu.size(); ++k) for (int x : bu[k]) KCHECK(x == (int)k + 1, "element of buffer ", k, " visited wrongly: ", x);
        parallel::chunked_for(bu, [&](int &x) { __atomic_fetch_add(&x, 1, __ATOMIC_RELAXED); }); for (std::size_t k = 0; k < bu.size(); ++k) for (int x : bu[k]) KCHECK(x == (int)k + 2, "element of buffer ", k, " visited wrongly: ", x); }
      if (kvc::g_fails) return; } }); }
  return kvc::done();
}
