// Bounded contract run for C07: parallel reductions, scans and atomics with real threads.
#include "kvc.h"
#include <atomic>
#include <deque>
#include <numeric>
#include <thread>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/parallel/algorithm.h"
#include "kaminpar-common/parallel/aligned_prefix_sum.h"
#include "kaminpar-common/parallel/atomic.h"
#undef V
#undef C
using namespace kaminpar; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
template <typename T> void one(kvc::Rng &r, std::size_t n) {
  StaticArray<T> a(n, static_array::seq); std::vector<T> v(n); T lim = n ? std::numeric_limits<T>::max() / (T)(n + 1) / 2 : 1; bool neg = std::is_signed_v<T> && r.coin(); int st = r.below(4);
  for (std::size_t i = 0; i < n; ++i) { T x = (T)(st == 0 ? r.below(3) : st == 1 ? r.next() % ((u64)lim + 1) : i + 1 == n ? (u64)lim : r.below(5)); if (neg && (st == 1 ? r.coin() : true)) x = (T)-x; v[i] = a[i] = x; }
  T sum = 0; for (T x : v) sum += x; T init = (T)r.below(100);
  KCHECK(parallel::accumulate(a, init) == (T)(sum + init), "accumulate(container)"); KCHECK(parallel::accumulate(v.begin(), v.end(), init) == (T)(sum + init), "accumulate(iterators)");
  i64 s3 = 7; for (T x : v) s3 += x % 5 ? 3 : -1; KCHECK(parallel::accumulate(v.begin(), v.end(), (i64)7, [](const T x) -> i64 { return x % 5 ? 3 : -1; }) == s3, "accumulate(op)");
  if (n) { T m = *std::max_element(v.begin(), v.end()); KCHECK(parallel::max_element(a) == m, "max_element(container) = ", parallel::max_element(a), " expected ", m); KCHECK(parallel::max_element(v.begin(), v.end()) == m, "max_element(iterators)"); }
  std::vector<T> p(n), q(n + 1, 0), w = v; std::partial_sum(v.begin(), v.end(), p.begin());
  parallel::prefix_sum(v.begin(), v.end(), q.begin() + 1); KCHECK(q[0] == 0 && std::equal(p.begin(), p.end(), q.begin() + 1), "prefix_sum into another array"); KCHECK(v == w, "prefix_sum changed its input");
  parallel::prefix_sum(w.begin(), w.end(), w.begin()); KCHECK(w == p, "prefix_sum in place"); parallel::prefix_sum(a.begin(), a.end(), a.begin()); KCHECK(std::equal(p.begin(), p.end(), a.begin()), "prefix_sum of a static array");
  if (!neg && n) { T m = 0; for (std::size_t i = 1; i < n; ++i) m = std::max<T>(m, p[i] - p[i - 1]); KCHECK(parallel::max_difference(p.begin(), p.end()) == m, "max_difference = ", parallel::max_difference(p.begin(), p.end()), " expected ", m); KCHECK(parallel::max_difference(a) == m, "max_difference(container)"); }
}
void aligned(kvc::Rng &r, std::size_t n) {
  std::vector<u64> al(n), val(n); int st = r.below(4); for (std::size_t i = 0; i < n; ++i) { al[i] = st == 0 ? 8 : st == 1 ? 1u << r.below(4) : r.below(4) ? 1u << r.below(4) : 0; val[i] = st == 3 ? r.below(2) : r.below(40); if (!al[i]) val[i] = 0; }
  auto l = [&](const std::size_t i) { if (i >= n) { kvc::fail(kvc::str("value of element ", i, " of ", n, " requested")); return std::pair<u64, u64>(1, 0); } return std::pair<u64, u64>(al[i], val[i]); };
  StaticArray<u64> o(n, static_array::seq); for (auto &x : o) x = 0xdeadbeef; u64 res = parallel::aligned_prefix_sum(o.begin(), o.end(), l);
  u64 end = 0; for (std::size_t i = 0; i < n && !kvc::g_fails; ++i) { KCHECK(!al[i] || o[i] % al[i] == 0, "element ", i, " of ", n, " at ", o[i], " is not aligned to ", al[i]); KCHECK(o[i] >= end, "element ", i, " at ", o[i], " overlaps the previous one ending at ", end); KCHECK(i == 0 ? o[i] == 0 : o[i] <= end + 16, "element ", i, " at ", o[i], " wastes space behind ", end); end = o[i] + val[i]; }
  KCHECK(res == end, "total size ", res, ", expected ", end);
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 4000 : 700;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    std::size_t n = i < 40 ? i : r.below(i % 5 ? 300 : i % 25 ? 20000 : 400000), th = 1 + r.below(8); tbb::global_control gc(tbb::global_control::max_allowed_parallelism, th); kvc::begin(kvc::str("n=", n, " threads=", th)); kvc::announce();
    one<i32>(r, n); one<u32>(r, n); one<i64>(r, n); one<u64>(r, n);
    aligned(r, n); tbb::task_arena ar(1 + r.below(16)); ar.execute([&] { aligned(r, n); });
  }
  for (int i = 0; i < 200 && !kvc::g_fails; ++i) { // every operator against the built-in one
    kvc::begin("atomic operators"); i32 x = (i32)r.below(2000) - 1000, y = (i32)r.below(100); parallel::Atomic<i32> A(x);
    KCHECK(A++ == x && A == x + 1, "post-increment"); KCHECK(++A == x + 2, "pre-increment"); KCHECK(A-- == x + 2 && A == x + 1, "post-decrement"); KCHECK(--A == x, "pre-decrement");
    KCHECK((A += y) == x + y && (A -= y) == x, "compound sum"); KCHECK(A.fetch_add(y) == x && A.fetch_sub(y) == x + y && A.load() == x, "fetch_add and fetch_sub");
    KCHECK((A |= y) == (x | y) && (A = x) == x && (A &= y) == (x & y) && (A = x) == x && (A ^= y) == (x ^ y), "bit operators"); A.store(x); KCHECK(A.fetch_or(y) == x && A == (x | y), "fetch_or"); A.store(x); KCHECK(A.fetch_and(y) == x && A == (x & y), "fetch_and"); A.store(x); KCHECK(A.fetch_xor(y) == x && A == (x ^ y), "fetch_xor");
    A.store(x); KCHECK(A.exchange(y) == x && A == y, "exchange"); i32 e = y + 1; KCHECK(!A.compare_exchange_strong(e, 3) && e == y && A == y, "failed exchange"); KCHECK(A.compare_exchange_strong(e, 3) && A == 3, "compare_exchange"); parallel::Atomic<i32> B(A), C; KCHECK(B == 3 && C == 0, "construction"); C = B; KCHECK(C == 3, "assignment"); C = 9; KCHECK(C == 9, "value assignment"); while (!C.compare_exchange_weak(e = 9, 4)) {} KCHECK(C == 4, "weak exchange"); std::vector<parallel::Atomic<i32>> V(3); V.push_back(A); KCHECK(V[3] == 3 && V[0] == 0, "vector of atomics"); parallel::Atomic<i32> M(std::move(A)); KCHECK(M == 3, "move construction"); C = std::move(M); KCHECK(C == 3, "move assignment");
  }
  for (int i = 0; i < 20 && !kvc::g_fails; ++i) { // concurrent updates are not lost
    kvc::begin("concurrent atomic operators"); kvc::announce(); parallel::Atomic<i64> A(0), B(1 << 20), C(0); parallel::Atomic<u64> O(0), X(0); std::vector<std::thread> ts; std::atomic<int> go{0}; std::atomic<i64> won{0};
    for (int t = 0; t < 8; ++t) ts.emplace_back([&, t] { ++go; while (go < 8) {} for (int j = 0; j < 5000; ++j) { switch (j % 4) { case 0: A++; B--; break; case 1: ++A; --B; break; case 2: A += 1; B -= 1; break; default: A.fetch_add(1); B.fetch_sub(1); } O |= 1ull << (t * 8 + j % 8); X ^= j; i64 e = C; if (C.compare_exchange_strong(e, e + 1)) ++won; } });
    for (auto &t : ts) t.join(); KCHECK(A == 40000, "40000 increments gave ", (i64)A); KCHECK(B == (1 << 20) - 40000, "40000 decrements gave ", (i64)B); KCHECK(O == ~0ull, "bits lost"); KCHECK(X == 0, "xor lost"); KCHECK(C == won, "compare_exchange succeeded ", (i64)won, " times, value ", (i64)C);
  }
  return kvc::done();
}
