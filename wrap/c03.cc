// Extraction unit for C03: integer helpers behind every size, level and bucket computation.
#include <cstdint>
#include <concepts>
#include "kaminpar-common/math.h"
#include "kaminpar-common/degree_buckets.h"
using namespace kaminpar;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
#define W(T, w)                                                                                  \
  extern "C" bool is_msb_set_##w(T x) { return math::is_msb_set<T>(x); }                         \
  extern "C" T div_ceil_##w(T x, T y) { return math::div_ceil(x, y); }                           \
  extern "C" T mod_ceil_##w(T x, T y) { return math::mod_ceil(x, y); }                           \
  extern "C" u64 abs_diff_##w(T x, T y) { return math::abs_diff(x, y); }                         \
  extern "C" bool is_power_of_2_##w(T x) { return math::is_power_of_2(x); }                      \
  extern "C" T floor_log2_##w(T x) { return math::floor_log2(x); }                               \
  extern "C" T ceil_log2_##w(T x) { return math::ceil_log2(x); }                                 \
  extern "C" T floor2_##w(T x) { return math::floor2(x); }                                       \
  extern "C" T ceil2_##w(T x) { return math::ceil2(x); }                                         \
  extern "C" T byte_width_##w(T x) { return math::byte_width(x); }                               \
  extern "C" T create_mask_##w(int n) { return math::create_mask<T>(n); }                        \
  extern "C" T lowest_##w(int b) { return lowest_degree_in_bucket<T>(b); }                       \
  extern "C" int bucket_##w(T d) { return degree_bucket<T>(d); }                                 \
  extern "C" T decode_row_##w(T p, T c) { return math::decode_grid_position(p, c).first; }       \
  extern "C" T decode_col_##w(T p, T c) { return math::decode_grid_position(p, c).second; }      \
  extern "C" T encode_##w(T r, T q, T c) { return math::encode_grid_position(r, q, c); }
W(u32, 32) W(u64, 64)
extern "C" u64 abs_32(i32 x) { return math::abs(x); }
extern "C" u64 abs_64(i64 x) { return math::abs(x); }
extern "C" u32 split_lo(u32 v) { return math::split_integral(v).first; }
extern "C" u32 split_hi(u32 v) { return math::split_integral(v).second; }
