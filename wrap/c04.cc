// Extraction unit for C04: contiguous ranges handed to workers/processes and their inverse.
#include <cstdint>
#include <span>
#include <concepts>
#include "kaminpar-common/math.h"
using namespace kaminpar;
typedef std::uint32_t u32; typedef std::uint64_t u64;
struct Dist { const u64 *b, *e; const u64 *begin() const { return b; } const u64 *end() const { return e; } };
#define W(T, w)                                                                                                   \
  extern "C" T from_##w(T n, T s, T r) { return math::compute_local_range<T>(n, s, r).first; }                    \
  extern "C" T to_##w(T n, T s, T r) { return math::compute_local_range<T>(n, s, r).second; }                     \
  extern "C" u64 rank_##w(T n, T s, T e) { return math::compute_local_range_rank<T>(n, s, e); }
W(u32, 32) W(u64, 64)
extern "C" u64 find_dist(u64 v, const Dist &d) { return math::find_in_distribution<u64>(v, d); }
