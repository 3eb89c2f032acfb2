// Bounded contract run for C05.
#include "kvc.h"
#include "kaminpar-shm/partitioning/partition_utils.cc"
using namespace kaminpar; using namespace kaminpar::shm;
typedef std::uint32_t u32; typedef std::uint64_t u64;
u32 fk(u32 b, u32 c, u32 k) { return partitioning::compute_final_k(b, c, k); }
void tree(u32 k, kvc::Rng &r) {
  std::vector<u32> cur{k}; // final blocks below every block of the level, from the definition: the left child gets the larger half
  for (u32 ck = 1; ck < k && kvc::g_fails == 0; ck *= 2) {
    kvc::begin(kvc::str("k=", k, " level of ", ck, " blocks")); u64 at = 0; bool some = ck > 4096;
    for (u32 b = 0; b < ck; ++b) {
      if (!some || b < 16 || b + 16 > ck || r.below(ck / 512) == 0) {
        KCHECK(fk(b, ck, k) == cur[b], "block ", b, " has ", fk(b, ck, k), " final blocks, expected ", cur[b]);
        KCHECK(partitioning::compute_first_sub_block(b, ck, k) == at, "block ", b, " starts at ", partitioning::compute_first_sub_block(b, ck, k), ", expected ", at);
        KCHECK(partitioning::compute_first_invalid_sub_block(b, ck, k) == at + cur[b], "block ", b, " ends at ", partitioning::compute_first_invalid_sub_block(b, ck, k));
        if (kvc::g_fails) return;
      }
      at += cur[b];
    }
    KCHECK(at == k, "the blocks cover ", at, " final blocks");
    std::vector<u32> nx; nx.reserve(2 * ck); for (u32 x : cur) { nx.push_back(x - x / 2); nx.push_back(x / 2); } cur.swap(nx);
  }
  kvc::begin(kvc::str("k=", k, " leaves")); for (u32 b = 0; b < k; b += 1 + b / 64) KCHECK(fk(b, k, k) == 1, "leaf ", b);
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed);
  for (u32 k = 2; k <= (kvc::g_thorough ? 5000u : 1200u) && !kvc::g_fails; ++k) tree(k, r);
  for (int i = 0; i < (kvc::g_thorough ? 300 : 60) && !kvc::g_fails; ++i) tree(2 + r.below(i % 2 ? 1 << 20 : 1 << 14), r);
  for (int i = 0; i < 20000 && !kvc::g_fails; ++i) {
    Context c; c.coarsening.contraction_limit = 1 + r.below(i % 3 ? 5000 : 5); c.partition.k = 2 + r.below(i % 2 ? 3000 : 20); u32 C = c.coarsening.contraction_limit, n = r.skew() % ((u64)C << 20);
    if (n / C > 1u << 30) continue;
    kvc::begin(kvc::str("n=", n, " contraction limit=", C, " k=", c.partition.k)); u64 p = 1; while (p < std::max<u64>(2, n < 2 * (u64)C ? 0 : n / C)) p *= 2;
    KCHECK(partitioning::compute_k_for_n(n, c) == std::min<u64>(p, c.partition.k), "k_for_n = ", partitioning::compute_k_for_n(n, c));
    u32 ck = 1 + r.below(c.partition.k); KCHECK(partitioning::compute_next_k(ck, c) == std::min<u64>(2ull * ck, c.partition.k), "next_k of ", ck);
    std::size_t t = 1 + r.below(64), nc = partitioning::compute_num_copies(c, n, false, t); KCHECK(nc >= 1 && nc <= t, "copies ", nc, " of ", t, " threads"); KCHECK(partitioning::compute_num_copies(c, n, true, t) == t, "converged copies");
  }
  return kvc::done();
}
