// Extraction unit for C07: parallel reductions and scans.
#include "lay.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/atomic.h"
#include <utility>
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
using namespace kaminpar;
LAYSIZE(sa, StaticArray<unsigned>) LAY(sa_data, StaticArray<unsigned>, _data) LAY(sa_size, StaticArray<unsigned>, _size)
extern "C" i32 acc_container(const StaticArray<i32> &a, i32 init) { return parallel::accumulate(a, init); }
extern "C" i32 acc_iter(const i32 *b, const i32 *e, i32 init) { return parallel::accumulate(b, e, init); }
extern "C" i64 acc_op(const i32 *b, const i32 *e, i64 init) { return parallel::accumulate(b, e, init, [](const i32 v) { return static_cast<i64>(v) * 2; }); }
extern "C" i32 max_container(const StaticArray<i32> &a) { return parallel::max_element(a); }
extern "C" i32 max_iter(const i32 *b, const i32 *e) { return parallel::max_element(b, e); }
extern "C" u32 maxdiff_iter(const u32 *b, const u32 *e) { return parallel::max_difference(b, e); }
extern "C" void scan_inplace(u32 *b, u32 *e) { parallel::prefix_sum(b, e, b); }
extern "C" void scan_out(const u32 *b, const u32 *e, u32 *o) { parallel::prefix_sum(b, e, o); }
extern "C" u64 aligned_seq(u64 *b, u64 *e, const u64 *val) { return parallel::aligned_prefix_sum_seq(b, e, [&](const std::size_t i) { return std::pair<std::size_t, std::size_t>(8, val[i]); }); }
typedef parallel::Atomic<i32> A32; typedef parallel::Atomic<u64> A64;
extern "C" i32 at_preinc(A32 &a) { return ++a; }
extern "C" i32 at_postinc(A32 &a) { return a++; }
extern "C" i32 at_predec(A32 &a) { return --a; }
extern "C" i32 at_postdec(A32 &a) { return a--; }
extern "C" i32 at_add(A32 &a, i32 x) { return a += x; }
extern "C" i32 at_sub(A32 &a, i32 x) { return a -= x; }
extern "C" i32 at_fadd(A32 &a, i32 x) { return a.fetch_add(x); }
extern "C" i32 at_fsub(A32 &a, i32 x) { return a.fetch_sub(x); }
extern "C" i32 at_exchange(A32 &a, i32 x) { return a.exchange(x); }
extern "C" i32 at_load(const A32 &a) { return a.load(); }
extern "C" i32 at_read(const A32 &a) { return a; }
extern "C" void at_store(A32 &a, i32 x) { a.store(x); }
extern "C" void at_assign(A32 &a, i32 x) { a = x; }
extern "C" void at_copy(A32 &a, const A32 &b) { a = b; }
extern "C" bool at_cas(A32 &a, i32 &e, i32 x) { return a.compare_exchange_strong(e, x); }
