// Bounded contract run for C02: random operation histories of every heap type against a reference map.
#include "kvc.h"
#include <map>
#include <algorithm>
#include "kaminpar-common/datastructures/binary_heap.h"
using namespace kaminpar;
typedef std::uint32_t u32;
template <typename K> static K rkey(kvc::Rng &r, int mode) {
  switch (mode) { case 0: return (K)r.in(0, 3); case 1: return (K)r.in(-50, 50); case 2: return (K)r.in(-2000000000, 2000000000); default: return (K)r.in(0, 100000); }
}
static kvc::Rng *R;
template <typename K> bool better(bool mx, K a, K b) { return mx ? a > b : a < b; }
template <typename K> K top(const std::map<u32, K> &m, bool mx) { K b = m.begin()->second; for (auto &e : m) if (better(mx, e.second, b)) b = e.second; return b; }
template <typename H, typename K> void agree(const H &h, const std::map<u32, K> &m, bool mx, u32 n) {
  KCHECK(h.size() == m.size(), "size ", h.size(), " expected ", m.size()); KCHECK(h.empty() == m.empty(), "empty");
  for (u32 i = 0; i < n; ++i) { bool c = h.contains(i); KCHECK(c == (m.count(i) > 0), "contains(", i, ")"); if (c && m.count(i)) KCHECK(h.key(i) == m.at(i), "key(", i, ")"); }
  if (!m.empty() && !h.empty()) { KCHECK(h.peek_key() == top(m, mx), "peek_key"); u32 id = h.peek_id(); KCHECK(m.count(id) && m.at(id) == h.peek_key(), "peek_id ", id); }
}
template <typename H, typename K> void single(H &h, u32 n, bool mx, int ops, int mode, const std::string &name) {
  auto &r = *R; std::map<u32, K> m; K lo = mx ? std::numeric_limits<K>::lowest() : std::numeric_limits<K>::max(); (void)lo;
  for (int o = 0; o < ops; ++o) {
    int op = r.below(20); u32 id = r.below(n); K k = rkey<K>(r, mode); bool has = m.count(id);
    kvc::begin(kvc::str(name, " n=", n, " step ", o, " op ", op, " id ", id, " key ", k));
    if (op < 7) { if (!has) { h.push(id, k); m[id] = k; } else { h.change_priority(id, k); m[id] = k; } }
    else if (op < 10) { h.push_or_change_priority(id, k); m[id] = k; }
    else if (op < 12) { if (!m.empty()) { u32 t = h.peek_id(); KCHECK(m.count(t), "peek_id not contained"); h.pop(); m.erase(t); } }
    else if (op < 14) { if (has) { h.remove(id); m.erase(id); } }
    else if (op < 16) { if (has) { h.change_priority(id, k); m[id] = k; } }
    else if (op < 17) { if (has && better(mx, k, m[id])) { h.decrease_priority(id, k); m[id] = k; } }
    else if (op < 18) { if (has && better(mx, m[id], k)) { h.increase_priority(id, k); m[id] = k; } }
    else if (op == 18 && r.below(8) == 0) { h.clear(); m.clear(); }
    agree<H, K>(h, m, mx, n); if (kvc::g_fails) return;
  }
  K last{}; bool first = true;
  while (!m.empty()) { kvc::begin(kvc::str(name, " drain n=", n, " left ", m.size())); u32 t = h.peek_id(); K k = h.peek_key(); KCHECK(first || !better(mx, k, last), "pop order"); last = k; first = false; KCHECK(m.count(t) && m[t] == k, "peek"); m.erase(t); h.pop(); agree<H, K>(h, m, mx, n); if (kvc::g_fails) return; }
}
template <typename F, typename K, bool mm> void forest(u32 n, u32 hs, bool mx, int ops, int mode, const std::string &name) {
  auto &r = *R; F h; h.init(n, hs); std::map<u32, K> m[8]; std::map<u32, u32> in;
  for (int o = 0; o < ops; ++o) {
    int op = r.below(20); u32 id = r.below(n), t = r.below(hs); K k = rkey<K>(r, mode); bool has = in.count(id); if (has && r.below(3)) t = in[id];
    kvc::begin(kvc::str(name, " n=", n, " step ", o, " op ", op, " heap ", t, " id ", id, " key ", k));
    if (op < 8) { if (!has) { h.push(t, id, k); m[t][id] = k; in[id] = t; } }
    else if (op < 12) { if (!m[t].empty()) { u32 x;
      if constexpr (mm) { if (r.coin()) { x = h.peek_min_id(t); h.pop_min(t); } else { x = h.peek_max_id(t); h.pop_max(t); } } else { x = h.peek_id(t); h.pop(t); }
      KCHECK(m[t].count(x), "popped a foreign id"); m[t].erase(x); in.erase(x); } }
    else if (op < 14) { if (has) { t = in[id]; h.remove(t, id); m[t].erase(id); in.erase(id); } }
    else if (op < 18) { if (has) { t = in[id]; h.change_priority(t, id, k); m[t][id] = k; } }
    else if (op == 18) { if (r.below(10) == 0) { if (r.coin()) { h.clear(t); for (auto &e : m[t]) in.erase(e.first); m[t].clear(); } else { h.clear(); for (u32 q = 0; q < hs; ++q) m[q].clear(); in.clear(); } } }
    else if constexpr (!mm) { if (!has || in[id] == t) { h.push_or_change_priority(t, id, k); m[t][id] = k; in[id] = t; } }
    std::size_t tot = 0;
    for (u32 q = 0; q < hs; ++q) { tot += m[q].size(); KCHECK(h.size(q) == m[q].size(), "size(heap)"); KCHECK(h.empty(q) == m[q].empty(), "empty(heap)"); if (m[q].empty()) continue;
      if constexpr (mm) { KCHECK(h.peek_min_key(q) == top(m[q], false) && h.peek_max_key(q) == top(m[q], true), "peek keys"); u32 a = h.peek_min_id(q), b = h.peek_max_id(q); KCHECK(m[q].count(a) && m[q][a] == h.peek_min_key(q) && m[q].count(b) && m[q][b] == h.peek_max_key(q), "peek ids"); }
      else { KCHECK(h.peek_key(q) == top(m[q], mx), "peek_key"); u32 a = h.peek_id(q); KCHECK(m[q].count(a) && m[q][a] == h.peek_key(q), "peek_id"); }
      for (auto &e : m[q]) KCHECK(h.key(q, e.first) == e.second, "key of ", e.first); }
    KCHECK(h.size() == tot, "total size"); for (u32 i = 0; i < n; ++i) KCHECK(h.contains(i) == (in.count(i) > 0), "contains ", i);
    if (kvc::g_fails) return;
  }
}
template <typename H, typename K> void dyn(u32 n, bool mx, int ops, int mode, const std::string &name) {
  auto &r = *R; H h; std::multimap<u32, K> m;
  for (int o = 0; o < ops; ++o) {
    int op = r.below(10); u32 id = r.below(n); K k = rkey<K>(r, mode); kvc::begin(kvc::str(name, " step ", o, " op ", op, " id ", id, " key ", k));
    if (op < 6) { h.push(id, k); m.emplace(id, k); }
    else if (op < 9) { if (!m.empty()) { u32 t = h.peek_id(); K q = h.peek_key(); h.pop(); auto e = m.equal_range(t); bool f = false; for (auto i = e.first; i != e.second; ++i) if (i->second == q) { m.erase(i); f = true; break; } KCHECK(f, "popped entry was never pushed"); } }
    else if (r.below(40) == 0) { h.clear(); m.clear(); }
    KCHECK(h.size() == m.size() && h.empty() == m.empty(), "size");
    if (!m.empty()) { K b = m.begin()->second; for (auto &e : m) if (better(mx, e.second, b)) b = e.second; KCHECK(h.peek_key() == b, "peek_key"); bool f = false; auto e = m.equal_range(h.peek_id()); for (auto i = e.first; i != e.second; ++i) f |= i->second == b; KCHECK(f, "peek_id"); }
    if (kvc::g_fails) return;
  }
}
template <typename K> void all(u32 n, int ops, int mode) {
  { BinaryMaxHeap<K> h(n); single<BinaryMaxHeap<K>, K>(h, n, true, ops, mode, "BinaryMaxHeap"); KCHECK(h.empty(), "drained"); h.resize(2 * n + 1); KCHECK(h.capacity() == 2 * n + 1, "capacity"); single<BinaryMaxHeap<K>, K>(h, 2 * n + 1, true, ops, mode, "BinaryMaxHeap resized"); }
  { BinaryMinHeap<K> h(n); single<BinaryMinHeap<K>, K>(h, n, false, ops, mode, "BinaryMinHeap"); }
  { std::vector<std::size_t> hd(n, SharedBinaryMaxHeap<K>::kInvalidID); SharedBinaryMaxHeap<K> h(n, hd.data()); single<SharedBinaryMaxHeap<K>, K>(h, n, true, ops, mode, "SharedBinaryMaxHeap"); }
  { std::vector<std::size_t> hd(n, SharedBinaryMinHeap<K>::kInvalidID); SharedBinaryMinHeap<K> h(n, hd.data()); single<SharedBinaryMinHeap<K>, K>(h, n, false, ops, mode, "SharedBinaryMinHeap"); }
  u32 hs = 1 + R->below(5);
  forest<DynamicBinaryMaxForest<u32, K>, K, false>(n, hs, true, ops, mode, "DynamicBinaryMaxForest"); forest<DynamicBinaryMinForest<u32, K>, K, false>(n, hs, false, ops, mode, "DynamicBinaryMinForest");
  forest<DynamicBinaryMinMaxForest<u32, K>, K, true>(n, hs, true, ops, mode, "DynamicBinaryMinMaxForest");
  dyn<DynamicBinaryMaxHeap<u32, K>, K>(n, true, ops, mode, "DynamicBinaryMaxHeap"); dyn<DynamicBinaryMinHeap<u32, K>, K>(n, false, ops, mode, "DynamicBinaryMinHeap");
}
int main(int a, char **b) {
  kvc::init(a, b); kvc::g_case = "startup"; kvc::Rng r(kvc::g_seed); R = &r;
  for (int i = 0; i < (kvc::g_thorough ? 1500 : 60) && !kvc::g_fails; ++i) { u32 n = 1 + r.below(i % 4 == 0 ? 6 : 60); int ops = 20 + r.below(380); int mode = i % 4; all<std::int32_t>(n, ops, mode); all<double>(n, ops, mode == 2 ? 1 : mode); all<std::int64_t>(n, ops, mode); }
  return kvc::done();
}
