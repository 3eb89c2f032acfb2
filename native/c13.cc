// Bounded contract run for C13: every sparse map against std::map over random histories, the compact hash map exhaustively for small tables.
#include "kvc.h"
#include <map>
#include <set>
#include <algorithm>
#include <numeric>
#include <tbb/global_control.h>
#include <tbb/parallel_for.h>
#include "kaminpar-common/assert.h"
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/rating_map.h"
#include "kaminpar-common/datastructures/fast_reset_array.h"
#include "kaminpar-common/datastructures/concurrent_fast_reset_array.h"
#include "kaminpar-common/ranges.h"
#include "kaminpar-common/datastructures/dynamic_map.h"
#include "kaminpar-common/datastructures/compact_hash_map.h"
using namespace kaminpar; using std::string; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
using kvc::str;
template <class T> using Ref = std::map<u64, T>;
template <class M, class T> static void same_entries(M &&m, const Ref<T> &ref, const string &how) {
  std::set<u64> seen; for (auto &&[k, v] : m) { KCHECK(seen.insert(k).second, how, ": key ", (u64)k, " is listed twice"); auto it = ref.find(k); KCHECK(it != ref.end() && it->second == (T)v, how, ": lists ", (u64)k, " -> ", (i64)v, ", expected ", it == ref.end() ? i64(0) : (i64)it->second, it == ref.end() ? " (absent)" : ""); }
  KCHECK(seen.size() == ref.size(), how, ": lists ", seen.size(), " entries, expected ", ref.size());
}
// keys that collide: the same bucket of a table with `mask`
static u64 mix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; }
static std::vector<u64> keyset(kvc::Rng &r, size_t n, u64 lim, u64 mask) {
  std::set<u64> s; int style = r.below(4); u64 base = r.below(lim);
  u64 tgt = r.coin() ? mask - r.below(3) : r.next() & mask; // clusters that wrap around the end of the table
  for (int tries = 0; s.size() < n && tries < 400000; ++tries) { u64 k = style == 0 ? r.below(lim) : style == 1 ? (base + s.size()) % lim : style == 2 ? r.skew() % lim : r.below(lim); if (style == 3 && ((mix(k) - tgt) & mask) > 2) continue; s.insert(k); }
  if (s.empty()) s.insert(base); std::vector<u64> v(s.begin(), s.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); return v;
}
template <class K, class T> static void sparse_map(kvc::Rng &r, size_t cap) {
  SparseMap<K, T> m(cap); Ref<T> ref; string how = str("SparseMap of capacity ", cap); KCHECK(m.capacity() == cap && m.size() == 0, how, ": fresh");
  int ops = 30 + r.below(8 * cap + 100);
  for (int i = 0; i < ops && !kvc::g_fails; ++i) {
    K k = r.below(cap); T v = (T)(int)r.in(-30000, 30000); bool had = ref.count(k); KCHECK(m.contains(k) == had, how, ": contains(", k, ") is ", !had, " after operation ", i);
    switch (r.below(8)) {
    case 0: case 1: m.add(k, v); ref.insert({k, v}); break;
    case 2: case 3: m[k] += v; ref[k] += v; break;
    case 4: case 5: m.remove(k); ref.erase(k); break;
    case 6: if (had) KCHECK(m.get(k) == ref[k], how, ": get(", k, ") is ", (i64)m.get(k), ", expected ", (i64)ref[k]); break;
    default: if (r.below(cap + 10) == 0) { m.clear(); ref.clear(); if (r.coin()) { cap = 1 + r.below(2 * cap); m.resize(cap); KCHECK(m.capacity() == cap, how, ": resize"); how = str("SparseMap resized to ", cap); } } break;
    }
    KCHECK(m.size() == ref.size(), how, ": size ", m.size(), ", expected ", ref.size());
    if (i % 16 == 0) same_entries(m.entries(), ref, how);
  }
  if (!kvc::g_fails && r.coin()) { // filled completely
    m.clear(); ref.clear(); for (size_t i = 0; i < cap; ++i) { m[i] = i + 1; ref[i] = i + 1; } same_entries(m, ref, how + ", full");
    for (size_t i = 0; i < cap; ++i) { K k = r.below(cap); m.remove(k); ref.erase(k); } same_entries(m, ref, how + ", after removals");
    SparseMap<K, T> m2 = std::move(m); same_entries(m2, ref, how + ", moved");
  }
}
template <class K, class T, size_t S> static void fixed_map(kvc::Rng &r) {
  T init = r.coin() ? T(0) : (T)(int)r.in(-30000, 30000); FixedSizeSparseMap<K, T, S> m(init); if (r.below(4) == 0) m.set_max_size(S * 2 + r.below(100)); size_t cap = m.capacity();
  KCHECK(cap >= S && (cap & (cap - 1)) == 0, "FixedSizeSparseMap capacity ", cap); u64 lim = sizeof(K) == 4 ? 0xffffffffull : ~0ull;
  for (int round = 0; round < (S > 1000 ? 2 : 40) && !kvc::g_fails; ++round) {
    string how = str("FixedSizeSparseMap<", S, "> round ", round); auto ks = keyset(r, r.below(3) == 0 ? cap - 1 : 1 + r.below(cap / 3 + 1), lim, cap - 1); if (ks.size() >= cap) ks.resize(cap - 1); Ref<T> ref; int ops = 2 * ks.size() + 5;
    for (int i = 0; i < ops && !kvc::g_fails; ++i) {
      K k = r.below(4) == 0 ? (K)r.below(lim) : ks[r.below(ks.size())]; bool had = ref.count(k);
      KCHECK(m.contains(k) == had, how, ": contains(", k, ") is ", !had); if (had && r.coin()) KCHECK(m.get(k) == ref[k], how, ": get(", k, ")");
      if (std::find(ks.begin(), ks.begin() + std::min<size_t>(ks.size(), 200), k) == ks.begin() + std::min<size_t>(ks.size(), 200) && ref.size() + 2 >= cap) continue;
      if (ref.size() + 1 >= cap && !had) continue;
      T v = (T)(int)r.in(-30000, 30000); auto it = ref.insert({k, init}).first; it->second += v; m[k] += v; KCHECK(m.size() == ref.size(), how, ": size");
    }
    same_entries(m.entries(), ref, how); for (auto &p : ref) { KCHECK(m.contains(p.first) && m.get(p.first) == p.second, how, ": lost key ", p.first); if (kvc::g_fails) break; }
    m.clear(); KCHECK(m.size() == 0, how, ": size after clear"); for (auto &p : ref) { KCHECK(!m.contains(p.first), how, ": ", p.first, " survives clear()"); if (kvc::g_fails) break; }
  }
}
template <class M> static void dynamic_map(kvc::Rng &r, const char *name, bool small) {
  M m; string nm = name; 
  for (int round = 0; round < (small ? 300 : 8) && !kvc::g_fails; ++round) { // many rounds: timestamps pass the values left in stale cells
    string how = str(nm, " round ", round); size_t n = small ? 1 + r.below(6) : r.coin() ? 1 + r.below(20) : 1 + r.below(3000); auto ks = keyset(r, n, small ? 64 : 0xffffffffull, std::max<size_t>(m.capacity(), 16) - 1); Ref<i64> ref;
    for (size_t i = 0; i < 2 * n && !kvc::g_fails; ++i) {
      u64 k = r.below(4) == 0 ? r.below(0xffffffffull) : ks[r.below(ks.size())]; bool had = ref.count(k); KCHECK(m.contains(k) == had, how, ": contains(", k, ") is ", !had);
      auto *p = m.get_if_contained(k); KCHECK((p != m.end()) == had && (!had || *p == ref[k]), how, ": get_if_contained(", k, ")"); if (had) KCHECK(m.get(k) == ref[k], how, ": get(", k, ")");
      if (r.below(3)) { i32 v = r.in(-1000, 1000); m[k] += v; ref[k] += v; } KCHECK(m.size() == ref.size(), how, ": size ", m.size(), ", expected ", ref.size()); KCHECK(m.size() < m.capacity(), how, ": the table is full");
    }
    std::vector<std::pair<u64, i64>> es; m.for_each([&](u64 k, i64 v) { es.push_back({k, v}); }); same_entries(es, ref, how);
    if constexpr (requires { m.entries(); }) same_entries(m.entries(), ref, how + " (entries)");
    if (r.below(10) == 0) { M o = std::move(m); es.clear(); o.for_each([&](u64 k, i64 v) { es.push_back({k, v}); }); same_entries(es, ref, how + " (moved)"); m = std::move(o); for (auto &p : ref) KCHECK(m.get(p.first) == p.second, how, ": after a move"); }
    m.clear(); KCHECK(m.size() == 0 && (ref.empty() || !m.contains(ref.begin()->first)), how, ": clear");
  }
}
template <class T> static void reset_arrays(kvc::Rng &r) {
  size_t cap = 1 + r.below(300); FastResetArray<T, u32> a(cap); ConcurrentFastResetArray<T, u32> c(cap);
  for (int round = 0; round < 12 && !kvc::g_fails; ++round) {
    if (r.below(3) == 0) { cap = 1 + r.below(400); a.resize(cap); c.resize(cap); } string how = str("fast reset array of ", cap, " entries"); Ref<T> ref; KCHECK(a.capacity() == cap && c.capacity() == cap && a.empty(), how, ": capacity");
    for (size_t i = 0; i < cap; ++i) KCHECK(!a.exists(i) && a.get(i) == 0 && c[i] == 0, how, ": entry ", i, " is not reset");
    for (size_t i = 0, n = r.below(3 * cap); i < n; ++i) { u32 k = r.below(cap); T v = 1 + r.below(1000); if (r.coin()) { a[k] += v; ref[k] += v; } else { a.set(k, v); ref[k] = v; } KCHECK(a.exists(k) && a.get(k) == ref[k], how, ": value"); }
    KCHECK(a.size() == ref.size() && a.empty() == ref.empty(), how, ": size ", a.size(), ", expected ", ref.size()); same_entries(a.entries(), ref, how); std::multiset<T> x, y; for (auto v : a.used_entry_values()) x.insert(v); for (auto &p : ref) y.insert(p.second); KCHECK(x == y, how, ": values"); a.clear();
    std::vector<std::atomic<int>> hits(cap); int p = 1 + r.below(8); std::vector<std::pair<u32, T>> got(cap, {0, 0}); tbb::parallel_for<size_t>(0, cap, [&](size_t i) { if (mix(i * 7 + round) & 1) { c[i] = i + 1; c.local_used_entries().push_back(i); } });
    c.iterate_and_reset([&](size_t, auto &es) { for (auto [k, v] : es) { hits[k]++; KCHECK(v == T(k + 1), how, ": concurrent value"); } }); (void)p;
    for (size_t i = 0; i < cap; ++i) { KCHECK(hits[i] == int(mix(i * 7 + round) & 1), how, ": entry ", i, " seen ", (int)hits[i], " times"); KCHECK(c[i] == 0, how, ": entry ", i, " survives the reset"); }
  }
}
static void rating(kvc::Rng &r) {
  u32 n = r.coin() ? 1 + r.below(5000) : 30000 + r.below(40000); RatingMap<i64, u32> m(r.coin() ? n : 0); if (m.max_size() != n) m.change_max_size(n);
  for (int i = 0; i < 25 && !kvc::g_fails; ++i) {
    u32 distinct = std::min<u64>(n, r.below(4) == 0 ? 1 + r.below(30000) : 1 + r.below(120)), ub = distinct + r.below(3), q = r.coin() ? n : std::min(n, 2 * distinct); 
    if (r.below(5) == 0) { ub = r.coin() ? 42 : r.coin() ? 43 : 10922 + r.below(2); distinct = std::min(n, ub); }
    Ref<i64> ref; string how = str("RatingMap for ", n, " keys, bound ", ub);
    m.execute(ub, [&](auto &map) {
      KCHECK(map.capacity() >= distinct, how, ": the selected map holds ", map.capacity()); KCHECK(map.size() == 0, how, ": not empty");
      for (u32 j = 0; j < 2 * distinct && !kvc::g_fails; ++j) { u32 k = ref.size() < distinct ? r.below(q) : std::next(ref.begin(), 0)->first; i64 v = 1 + r.below(100); map[k] += v; ref[k] += v; }
      same_entries(map.entries(), ref, how); map.clear();
    });
  }
}
template <class W, bool full> static void compact(kvc::Rng &r, size_t size, int key_bits, int hist) {
  std::vector<W> data(size + 2, 0); data[0] = data[size + 1] = (W)0x5a; CompactHashMap<W, full> m(data.data() + 1, size, key_bits); Ref<u64> ref; string how = str("compact hash map of ", size, " cells of ", sizeof(W) * 8, " bits, ", key_bits, " key bits", full ? ", fillable" : "");
  u64 keys = 1ull << std::min(key_bits, 20), maxv = (W)(((u64)(W)~(W)0) >> key_bits); size_t cap = full ? size : size - 1; u64 lim = std::min<u64>(keys, r.coin() ? keys : size * 2);
  KCHECK(m.capacity() == size, how, ": capacity");
  for (int i = 0; i < hist && !kvc::g_fails; ++i) {
    u64 k = r.below(lim); auto it = ref.find(k); u64 have = it == ref.end() ? 0 : it->second;
    if (have && r.below(5) < 2) { u64 v = r.below(3) == 0 ? 1 + r.below(have) : have; bool gone = m.decrease_by(k, v); KCHECK(gone == (v == have), how, ": decrease_by(", k, ", ", v, ") of ", have, " returns ", gone); if (v == have) ref.erase(k); else ref[k] -= v; }
    else if (have < maxv && (have || ref.size() < cap)) { u64 v = r.below(8) ? 1 + r.below(std::min<u64>(maxv - have, 5)) : 1 + r.below(maxv - have); bool fresh = m.increase_by(k, v); KCHECK(fresh == !have, how, ": increase_by(", k, ") of ", have, " returns ", fresh); ref[k] = have + v; }
    if (i % 4 == 0 || size <= 8) {
      for (u64 q = 0; q < std::min<u64>(keys, 70) && !kvc::g_fails; ++q) { auto j = ref.find(q); u64 e = j == ref.end() ? 0 : j->second; if (e == 0 && full && false) continue; KCHECK((u64)m.get(q) == e, how, ": get(", q, ") is ", (u64)m.get(q), ", expected ", e, " after operation ", i); }
      KCHECK(m.count() == ref.size(), how, ": count"); std::vector<std::pair<u64, u64>> es; m.for_each([&](W a, W b) { es.push_back({a, b}); }); same_entries(es, ref, how);
    }
  }
  KCHECK(data[0] == (W)0x5a && data[size + 1] == (W)0x5a, how, ": a neighbouring cell was changed");
}
// every state of a small table reachable by inserting one key after the other, and every erasure from it
template <class W, bool full> static void compact_all(int lg, int key_bits) {
  size_t size = 1ull << lg; u64 keys = 1ull << key_bits; size_t cap = full ? size : size - 1; string how = str("compact hash map, every insertion order, ", size, " cells, ", keys, " keys", full ? ", fillable" : "");
  kvc::begin(how);
  std::vector<u64> seq; std::set<std::vector<W>> seen;
  std::vector<std::pair<std::vector<W>, std::map<u64, u64>>> todo; todo.push_back({std::vector<W>(size, 0), {}}); seen.insert(todo[0].first);
  while (!todo.empty() && !kvc::g_fails) {
    auto [d, ref] = todo.back(); todo.pop_back(); ++kvc::g_cases;
    { auto t = d; CompactHashMap<W, full> m(t.data(), size, key_bits); for (u64 k = 0; k < keys; ++k) { u64 e = ref.count(k) ? ref[k] : 0; KCHECK((u64)m.get(k) == e, how, ": get(", k, ") is ", (u64)m.get(k), ", expected ", e); } }
    for (u64 k = 0; k < keys; ++k) {
      auto t = d; auto f = ref; CompactHashMap<W, full> m(t.data(), size, key_bits);
      if (ref.count(k)) { KCHECK(m.decrease_by(k, 1), how, ": erasure is reported"); f.erase(k); } else if (ref.size() < cap) { KCHECK(m.increase_by(k, 1), how, ": insertion is reported"); f[k] = 1; } else continue;
      if (seen.size() < 60000 && seen.insert(t).second) todo.push_back({t, f}); else if (seen.size() >= 60000) { CompactHashMap<W, full> q(t.data(), size, key_bits); for (u64 x = 0; x < keys; ++x) KCHECK((u64)q.get(x) == (u64)f.count(x), how, ": get(", x, ")"); }
    }
  }
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); int N = kvc::g_thorough ? 120 : 12;
  for (int lg = 1; lg <= (kvc::g_thorough ? 3 : 3); ++lg) for (int kb = 1; kb <= (kvc::g_thorough ? 4 : 3) && !kvc::g_fails; ++kb) { if (lg == 3 && kb == 4 && !kvc::g_thorough) continue; compact_all<std::uint8_t, true>(lg, kb); compact_all<std::uint8_t, false>(lg, kb); }
  for (int i = 0; i < N && !kvc::g_fails; ++i) {
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(8));
    kvc::begin(str("history ", i)); kvc::announce();
    sparse_map<u32, i32>(r, 1 + r.below(i % 5 ? 40 : 1000)); sparse_map<u32, i64>(r, 1 + r.below(100)); sparse_map<u64, u64>(r, 1 + r.below(30));
    fixed_map<u32, i32, 128>(r); fixed_map<u32, i64, 128>(r); fixed_map<u64, u32, 16>(r); if (i % 12 == 0) fixed_map<u32, i64, 32768>(r); if (i % 20 == 3) fixed_map<u32, i32, 65536>(r);
    for (bool s : {false, true}) { dynamic_map<DynamicFlatMap<u32, i32>>(r, "DynamicFlatMap", s); dynamic_map<DynamicFlatMap<u64, i64>>(r, "DynamicFlatMap (64 bit)", s); dynamic_map<DynamicRememberingFlatMap<u32, i32>>(r, "DynamicRememberingFlatMap", s); dynamic_map<DynamicRememberingFlatMap<u32, i64, u32>>(r, "DynamicRememberingFlatMap (32 bit timestamps)", s); }
    reset_arrays<i32>(r); reset_arrays<u64>(r); rating(r);
    for (int lg = 0; lg <= 6; ++lg) { int kb = 1 + r.below(6); if (lg) compact<std::uint8_t, false>(r, 1ull << lg, kb, 300); compact<std::uint8_t, true>(r, 1ull << lg, kb, 300); if (lg) compact<std::uint16_t, false>(r, 1ull << lg, kb + r.below(6), 300); compact<std::uint16_t, true>(r, 1ull << lg, kb + r.below(6), 300); compact<u32, true>(r, 1ull << lg, 1 + r.below(30), 300); compact<u64, true>(r, 1ull << lg, 1 + r.below(60), 300); if (lg) compact<u32, false>(r, 1ull << lg, 1 + r.below(30), 300); }
  }
  return kvc::done();
}
