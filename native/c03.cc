// Bounded contract run for C03 against naive definitions.
#include "kvc.h"
#include <concepts>
#include <cmath>
#include "kaminpar-common/math.h"
#include "kaminpar-common/degree_buckets.h"
using namespace kaminpar;
template <typename T> void one(T x, T y) {
  kvc::begin(kvc::str(sizeof(T) * 8, "-bit x=", x, " y=", y)); constexpr int w = sizeof(T) * 8; typedef unsigned __int128 L;
  int fl = -1; for (int k = 0; k < w; ++k) if ((x >> k) & 1) fl = k;
  bool p2 = x && fl >= 0 && ((L)1 << fl) == x;
  KCHECK(math::is_msb_set<T>(x) == (fl == w - 1), "is_msb_set"); KCHECK(math::is_power_of_2(x) == p2, "is_power_of_2");
  KCHECK(math::abs_diff(x, y) == (x > y ? x - y : y - x), "abs_diff");
  if (x) { KCHECK(math::floor_log2(x) == (T)fl, "floor_log2 ", math::floor_log2(x)); KCHECK(math::ceil_log2(x) == (T)(fl + !p2), "ceil_log2"); KCHECK(math::floor2(x) == (T)((L)1 << fl), "floor2 = ", math::floor2(x)); if (fl + !p2 < w) KCHECK(math::ceil2(x) == (T)((L)1 << (fl + !p2)), "ceil2 = ", math::ceil2(x)); }
  KCHECK(degree_bucket<T>(x) == fl + 1, "degree_bucket"); if (x) { KCHECK(lowest_degree_in_bucket<T>(fl + 1) == (T)((L)1 << fl), "lowest_degree_in_bucket"); } else KCHECK(lowest_degree_in_bucket<T>(0) == 0, "lowest_degree_in_bucket(0)");
  int bw = 1; for (int b = 1; b < (int)sizeof(T); ++b) if (x >> (8 * b)) bw = b + 1; KCHECK(math::byte_width(x) == (T)bw, "byte_width");
  if (y) { L q = ((L)x + y - 1) / y; KCHECK(math::div_ceil(x, y) == (T)q, "div_ceil"); T m = x % y; KCHECK(math::mod_ceil(x, y) == (m ? m : y), "mod_ceil");
    auto [r, c] = math::decode_grid_position(x, y); KCHECK(r == x / y && c == x % y, "decode_grid_position"); KCHECK(math::encode_grid_position(r, c, y) == x, "encode_grid_position"); }
  using S = std::make_signed_t<T>; S s = (S)x; if (s != std::numeric_limits<S>::min()) KCHECK(math::abs(s) == (std::size_t)(s < 0 ? -(long long)s : (long long)s), "abs");
}
template <typename T> void all() {
  std::vector<T> v; for (int k = 0; k < (int)sizeof(T) * 8; ++k) for (int d = -3; d <= 3; ++d) v.push_back((T)(((T)1 << k) + (T)d));
  for (auto q : kvc::model_values()) v.push_back((T)q);
  for (T x : v) for (T y : v) one<T>(x, y);
  for (int k = 0; k < 1000; ++k) one<T>(k, k + 1), one<T>(~(T)k, k), one<T>(k, 7);
  kvc::Rng r(kvc::g_seed); for (int i = 0; i < (kvc::g_thorough ? 3000000 : 200000); ++i) one<T>((T)r.skew(), (T)r.skew());
  for (int n = 0; n < (int)sizeof(T) * 8; ++n) { kvc::begin(kvc::str("create_mask ", n)); T m = math::create_mask<T>(n), e = 0; for (int k = 0; k < n; ++k) e |= (T)1 << k; KCHECK(m == e, "create_mask"); }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; all<std::uint32_t>(); all<std::uint64_t>();
  for (std::uint32_t n = 0; n < 20000; ++n) { kvc::begin(kvc::str("split_integral ", n)); auto [p, q] = math::split_integral(n); KCHECK(p + q == n && p - q <= 1, p, " + ", q); KCHECK(math::is_square(n * n) , "is_square"); if (n > 1) KCHECK(!math::is_square(n * n + 1u) , "is_square"); }
  { kvc::Rng r(kvc::g_seed); for (int i = 0; i < 2000; ++i) { std::vector<long> v(1 + r.below(30)); long lo = 1 << 30, hi = -lo; double s = 0; for (auto &x : v) { x = r.in(-1000, 1000); lo = std::min(lo, x); hi = std::max(hi, x); s += x; } kvc::begin("find_min/max/mean"); KCHECK(math::find_min(v) == lo && math::find_max(v) == hi && std::abs(math::find_mean(v) - s / v.size()) < 1e-9, "statistics of a sequence"); } }
  return kvc::done();
}
