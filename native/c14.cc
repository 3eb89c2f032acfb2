// Bounded contract run for C14: containers against their textbook definitions.
#include "kvc.h"
#include <algorithm>
#include <numeric>
#include <deque>
#include <thread>
#include <map>
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include "kaminpar-common/assert.h"
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
#include "kaminpar-common/datastructures/bitvector_rank.h"
#include "kaminpar-common/datastructures/maxsize_vector.h"
#include "kaminpar-common/datastructures/concurrent_circular_vector.h"
#include "kaminpar-common/datastructures/scalable_vector.h"
#include "kaminpar-common/datastructures/noinit_vector.h"
#include "kaminpar-common/datastructures/ts_navigable_linked_list.h"
#undef V
#undef C
using namespace kaminpar; using std::string; using kvc::str; typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
template <class M, int N> static void marker(kvc::Rng &r, const char *nm, int resets) {
  size_t cap = 1 + r.below(60); M m(cap); string how = str(nm, " of ", cap); KCHECK(m.size() == cap && m.capacity() == cap, how, ": size");
  for (int t = 0; t < resets && !kvc::g_fails; ++t) {
    std::vector<char> on(cap * N, 0); bool track = r.coin(); int ops = r.below(4) == 0 ? r.below(3 * cap) : r.below(4);
    for (int i = 0; i < ops; ++i) {
      size_t e = r.coin() ? r.below(cap) : std::min<size_t>(cap - 1, i / N); int k = r.below(N); if (track) m.template set<true>(e, k); else m.set(e, k); on[e * N + k] = 1;
      if (track) { size_t f = 0; while (f < cap && on[f * N + k]) ++f; KCHECK(m.first_unmarked_element(k) == f, how, ": first unmarked element is ", m.first_unmarked_element(k), ", expected ", f, ", after ", t, " resets"); }
    }
    for (size_t e = 0; e < cap; ++e) for (int k = 0; k < N; ++k) KCHECK(m.get(e, k) == (bool)on[e * N + k], how, ": mark ", k, " of ", e, " is ", m.get(e, k), " after ", t, " resets");
    m.reset(); KCHECK(m.first_unmarked_element(0) == 0, how, ": first unmarked element after a reset");
  }
}
static void queue(kvc::Rng &r) {
  size_t cap = 1 + r.below(50); Queue<u32> q(cap); string how = str("Queue of ", cap); std::deque<u32> ref; size_t head = 0, tail = 0;
  for (int i = 0; i < 200 && !kvc::g_fails; ++i) {
    u32 x = r.next(); switch (r.below(7)) {
    case 0: case 1: case 2: if (tail < cap) { q.push_tail(x); ref.push_back(x); ++tail; } break;
    case 3: if (!ref.empty()) { q.pop_head(); ref.pop_front(); ++head; } break;
    case 4: if (!ref.empty() && r.coin()) { q.pop_tail(); ref.pop_back(); --tail; } break;
    case 5: if (head > 0) { q.push_head(x); ref.push_front(x); --head; } break;
    default: if (r.below(15) == 0) { if (r.coin()) q.clear(); else { cap = 1 + r.below(50); q.resize(cap); KCHECK(q.capacity() == cap, how, ": resize"); } ref.clear(); head = tail = 0; } break;
    }
    KCHECK(q.size() == ref.size() && q.empty() == ref.empty(), how, ": size"); KCHECK(std::equal(q.begin(), q.end(), ref.begin(), ref.end()) && std::equal(q.cbegin(), q.cend(), ref.begin(), ref.end()), how, ": contents");
    for (size_t j = 0; j < ref.size(); ++j) KCHECK(q[j] == ref[j], how, ": entry ", j); if (!ref.empty()) KCHECK(q.head() == ref.front(), how, ": head");
  }
}
template <class Int> static void compact(kvc::Rng &r) {
  size_t bw = 1 + r.below(sizeof(Int)), n = r.below(5) ? r.below(70) : 0; CompactStaticArray<Int> a(bw, n); std::vector<Int> ref(n, 0); { CompactStaticArray<Int> none; KCHECK(none.empty() && none.begin() == none.end(), "an unconstructed CompactStaticArray is not empty"); } string how = str("CompactStaticArray of ", n, " values of ", bw, " bytes");
  KCHECK(a.size() == n && a.empty() == (n == 0) && a.byte_width() == bw, how, ": size"); Int mx = bw == sizeof(Int) ? ~Int(0) : (Int(1) << (8 * bw)) - 1;
  auto check = [&](const CompactStaticArray<Int> &c, size_t m, const char *w) {
    for (size_t i = 0; i < m; ++i) KCHECK(c[i] == ref[i], how, w, ": value ", i, " is ", (u64)c[i], ", expected ", (u64)ref[i]); size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) { KCHECK(i < m && *it == ref[i], how, w, ": iterator at ", i); if (kvc::g_fails) return; } KCHECK(i == m && size_t(c.end() - c.begin()) == m, how, w, ": iterator distance");
    i = 0; for (auto it = c.begin(); it < c.end() && i <= m;) { KCHECK(i < m, how, w, ": post-increment does not reach the end"); if (i >= m) break; KCHECK(*it++ == ref[i], how, w, ": post-increment at ", i); ++i; } KCHECK(i == m, how, w, ": post-increment");
    i = m; for (auto it = c.end(); it > c.begin() && i > 0;) { auto old = it--; --i; KCHECK(*it == ref[i] && old == it + 1, how, w, ": post-decrement at ", i); if (kvc::g_fails) return; }
    if (m) { size_t j = r.below(m); auto it = c.begin(); it += j; KCHECK(*it == ref[j] && *(c.end() - (m - j)) == ref[j] && *(c.begin() + j) == ref[j] && size_t(it - c.begin()) == j && it >= c.begin() && it <= c.end(), how, w, ": iterator arithmetic at ", j); it -= j; KCHECK(it == c.begin(), how, w, ": iterator arithmetic"); }
  };
  for (int t = 0; t < 60 && n && !kvc::g_fails; ++t) { size_t i = r.below(n); Int v = r.coin() ? (Int)r.next() & mx : r.coin() ? mx : (Int)r.skew() & mx; a.write(i, v); ref[i] = v; }
  check(a, n, ""); if (n) { size_t k = r.below(n + 1); a.restrict(k); KCHECK(a.size() == k, how, ": restricted size"); check(a, k, " restricted"); a.unrestrict(); check(a, n, " unrestricted"); KCHECK(a.size() == n, how, ": size"); }
  tbb::parallel_for<size_t>(0, n, [&](size_t i) { Int v = (Int)(i * 0x9E3779B97F4A7C15ull) & mx; a.write(i, v); ref[i] = v; }); check(a, n, ", written in parallel");
  auto raw = std::make_unique<u8[]>(n * bw + sizeof(Int) - bw); std::copy_n(a.data(), n * bw, raw.get()); KCHECK(a.memory_space() == n * bw + sizeof(Int) - bw, how, ": memory"); CompactStaticArray<Int> c(bw, n * bw + sizeof(Int) - bw, std::move(raw)); check(c, n, ", copied"); CompactStaticArray<Int> d = std::move(c); check(d, n, ", moved");
}
template <class V> static void rank(kvc::Rng &r, const char *nm) {
  size_t n = r.below(4) ? r.below(3000) : r.below(60000); std::vector<char> ref(n, 0); bool init = r.coin(); V v = init ? V(n, r.coin()) : V(n); string how = str(nm, " of ", n, " bits"); KCHECK(v.length() == n, how, ": length");
  int dens = r.below(5); for (size_t i = 0; i < n; ++i) { bool b = dens == 0 ? false : dens == 1 ? true : dens == 2 ? r.coin() : r.below(20) == 0; ref[i] = b; switch (r.below(3)) { case 0: v.set(i, b); break; default: if (b) v.set(i); else v.unset(i); } }
  for (int round = 0; round < 3 && !kvc::g_fails; ++round) {
    v.update(); u64 s = 0; for (size_t i = 0; i < n; ++i) { KCHECK((bool)v.is_set(i) == (bool)ref[i], how, ": bit ", i); KCHECK(v.rank(i) == s, how, ": rank(", i, ") is ", (u64)v.rank(i), ", expected ", s); if (kvc::g_fails) return; s += ref[i]; }
    for (int k = 0; k < 20 && n; ++k) { size_t i = r.below(n); bool b = r.coin(); ref[i] = b; v.set(i, b); }
  }
}
template <class T> static void statics(kvc::Rng &r) {
  size_t n = r.below(200); T x = (T)r.next(); string how = str("StaticArray of ", n, " values of ", sizeof(T), " bytes"); StaticArray<T> a(n, x), b(n, x, static_array::seq), c(n, static_array::noinit), d; std::vector<T> ref(n, x);
  auto check = [&](const StaticArray<T> &q, const char *w) { KCHECK(q.size() == ref.size() && q.empty() == ref.empty(), how, w, ": size"); KCHECK(std::equal(q.begin(), q.end(), ref.begin(), ref.end()), how, w, ": contents"); size_t i = 0; for (auto it = q.cbegin(); it != q.cend(); ++i) { KCHECK(*it == ref[i] && q.at(i) == ref[i] && q[i] == ref[i], how, w, ": element ", i); auto o = it++; KCHECK(it - o == 1 && o < it, how, w, ": iterator"); if (kvc::g_fails) return; } };
  check(a, ""); check(b, ", filled sequentially"); KCHECK(a == b, how, ": equal arrays differ"); KCHECK(StaticArray<T>(n) == StaticArray<T>(n, T()), how, ": default values");
  for (size_t i = 0; i < n; ++i) { ref[i] = (T)r.next(); a.write(i, ref[i]); c[i] = ref[i]; } check(a, ", written"); check(c, ", uninitialized then written"); KCHECK(a == c, how, ": equal arrays differ");
  if (n) { size_t i = r.below(n); T old = a[i]; a[i] = old + 1; KCHECK(!(a == c), how, ": arrays that differ in element ", i, " compare equal"); a[i] = old; StaticArray<T> e(n + 1); KCHECK(!(a == e), how, ": arrays of different sizes compare equal"); KCHECK(a.front() == ref[0] && a.back() == ref[n - 1], how, ": ends"); size_t k = r.below(n + 1); a.restrict(k); KCHECK(a.size() == k && size_t(a.end() - a.begin()) == k, how, ": restrict"); a.unrestrict(); check(a, ", unrestricted"); }
  check(static_array::create(ref), ", created from a vector"); check(StaticArray<T>(ref.begin(), ref.end()), ", copied"); StaticArray<T> span(n, ref.data()); check(span, " (span)"); KCHECK(span.is_span() || n == 0, how, ": span");
  StaticArray<T> m = std::move(a); check(m, ", moved"); d = std::move(m); check(d, ", assigned"); std::sort(d.begin(), d.end()); std::sort(ref.begin(), ref.end()); check(d, ", sorted"); size_t n2 = r.below(5000); d.resize(n2, x); ref.assign(n2, x); check(d, ", resized"); d.assign(n2, T(3)); ref.assign(n2, T(3)); check(d, ", assigned a value"); d.assign(n2 / 2, T(4)); std::fill_n(ref.begin(), n2 / 2, T(4)); check(d, ", partly assigned"); d.free(); KCHECK(d.size() == 0 && d.empty(), how, ": free");
}
template <class C> static void circular(kvc::Rng &r, const char *nm) {
  u32 p = 1 + r.below(6), n = r.below(400); C c(p); std::vector<u64> got(n), delta(n); for (auto &x : delta) x = r.below(1000); std::vector<std::thread> ts;
  for (u32 t = 0; t < p; ++t) ts.emplace_back([&] { for (;;) { u32 e = c.next(); if (e >= n) return; got[e] = c.fetch_and_update(e, delta[e]); } });
  for (auto &t : ts) t.join(); u64 s = 0; for (u32 i = 0; i < n; ++i) { KCHECK(got[i] == s, nm, " with ", p, " threads: entry ", i, " sees ", got[i], ", expected ", s); s += delta[i]; }
}
static void lists(kvc::Rng &r) {
  using L = NavigableLinkedList<u32, std::pair<u32, u32>, ScalableVector>; L list; u32 keys = r.below(200); std::vector<u32> len(keys); for (auto &x : len) x = r.below(10) ? r.below(40) : r.below(60000);
  tbb::parallel_for<u32>(0, keys, [&](u32 k) { auto &l = list.local(); l.mark(k); for (u32 i = 0; i < len[k]; ++i) { if (i & 1) l.push_back({k, i}); else l.emplace_back(k, i); } });
  auto ms = ts_navigable_list::combine<u32, std::pair<u32, u32>, ScalableVector, ScalableVector>(list); KCHECK(ms.size() == keys, "navigable list: ", ms.size(), " markers for ", keys, " keys"); std::vector<int> seen(keys, 0);
  for (auto &m : ms) { if (kvc::g_fails) return; KCHECK(m.key < keys && !seen[m.key]++, "navigable list: marker of ", m.key); if (kvc::g_fails) return; for (u32 i = 0; i < len[m.key]; ++i) { auto e = std::as_const(*m.local_list).get(m.position + i); KCHECK(e.first == m.key && e.second == i, "navigable list: entry ", i, " of key ", m.key); if (kvc::g_fails) return; } }
}
static void maxsize(kvc::Rng &r) {
  size_t cap = 1 + r.below(100); MaxSizeVector<u32> v(cap); std::vector<u32> ref; for (int i = 0; i < 300; ++i) { if (ref.size() < cap && r.below(3)) { u32 x = r.next(); v.push_back(x); ref.push_back(x); } else if (!ref.empty()) { if (r.below(20) == 0) { v.clear(); ref.clear(); } else { v.pop_back(); ref.pop_back(); } } KCHECK(v.size() == ref.size() && v.capacity() <= cap && std::equal(v.begin(), v.end(), ref.begin(), ref.end()), "MaxSizeVector of ", cap, ": contents"); }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 4000 : 250;
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8)); kvc::begin(str("round ", i)); kvc::announce();
    marker<Marker<>, 1>(r, "Marker<>", 20); marker<Marker<3>, 3>(r, "Marker<3>", 20); marker<Marker<1, size_t, StaticArray>, 1>(r, "Marker on StaticArray", 20); if (i % 10 == 0) { marker<Marker<1, u8>, 1>(r, "Marker<1, u8>", 700); marker<Marker<3, u8>, 3>(r, "Marker<3, u8>", 200); marker<Marker<2, u16, StaticArray>, 2>(r, "Marker<2, u16> on StaticArray", 300); } if (i % 100 == 99) marker<Marker<3, u16>, 3>(r, "Marker<3, u16>", 20000);
    queue(r); compact<u32>(r); compact<u64>(r); rank<RankCombinedBitVector<>>(r, "RankCombinedBitVector"); if (i % 4 == 0) rank<RankCombinedBitVector<128, 10>>(r, "RankCombinedBitVector<128, 10>"); statics<u8>(r); statics<i32>(r); statics<u64>(r); maxsize(r);
    circular<ConcurrentCircularVectorSpinlock<u32, u64>>(r, "ConcurrentCircularVectorSpinlock"); circular<ConcurrentCircularVectorMutex<u32, u64>>(r, "ConcurrentCircularVectorMutex"); if (i % 5 == 0) lists(r);
  }
  return kvc::done();
}
