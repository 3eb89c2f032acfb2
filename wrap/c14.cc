// Extraction unit for C14: markers, queues, compact arrays.
#include "lay.h"
#include <cstdint>
#include <array>
#include "kaminpar-common/datastructures/static_array.h"
#include "kaminpar-common/datastructures/marker.h"
#include "kaminpar-common/datastructures/queue.h"
#include "kaminpar-common/datastructures/compact_static_array.h"
using namespace kaminpar;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::uint8_t u8;
using M1 = Marker<>; using M3 = Marker<3>; using MS = Marker<1, std::size_t, StaticArray>; using Q = Queue<u32>;
LAYSIZE(m1, M1) LAY(m1_data, M1, _data) LAY(m1_id, M1, _marker_id) LAY(m1_first, M1, _first_unmarked_element)
LAYSIZE(m3, M3) LAY(m3_data, M3, _data) LAY(m3_id, M3, _marker_id) LAY(m3_first, M3, _first_unmarked_element)
LAYSIZE(ms, MS) LAY(ms_data, MS, _data) LAY(ms_id, MS, _marker_id) LAY(ms_first, MS, _first_unmarked_element)
LAYSIZE(q, Q) LAY(q_data, Q, _data) LAY(q_head, Q, _head) LAY(q_tail, Q, _tail)
using SAU = StaticArray<u32>;
LAYSIZE(sa, SAU) LAY(sa_size, SAU, _size) LAY(sa_usize, SAU, _unrestricted_size) LAY(sa_data, SAU, _data) LAY(sa_own, SAU, _owned_data)
using CA = CompactStaticArray<u32>; using CB = CompactStaticArray<u64>;
LAYSIZE(ca, CA) LAY(ca_bw, CA, _byte_width) LAY(ca_n, CA, _num_values) LAY(ca_vals, CA, _values)
LAYSIZE(cb, CB) LAY(cb_bw, CB, _byte_width) LAY(cb_n, CB, _num_values) LAY(cb_vals, CB, _values)
#define MK(N, T) \
  extern "C" void N##_set(T &m, u64 e, u64 k) { m.set(e, k); } \
  extern "C" bool N##_get(const T &m, u64 e, u64 k) { return m.get(e, k); } \
  extern "C" void N##_reset(T &m) { m.reset(); } \
  extern "C" void N##_track(T &m, u64 e, u64 k) { m.template set<true>(e, k); } \
  extern "C" u64 N##_first(const T &m, u64 k) { return m.first_unmarked_element(k); } \
  extern "C" u64 N##_size(const T &m) { return m.size(); }
MK(m1, M1) MK(m3, M3) MK(ms, MS)
extern "C" bool q_empty(const Q &q) { return q.empty(); }
extern "C" u64 q_size(const Q &q) { return q.size(); }
extern "C" u32 q_tailv(const Q &q) { return q.tail(); }
extern "C" u32 q_headv(const Q &q) { return q.head(); }
extern "C" u32 q_at(const Q &q, u64 i) { return q[i]; }
extern "C" void q_pushtail(Q &q, u32 x) { q.push_tail(x); }
extern "C" void q_pushhead(Q &q, u32 x) { q.push_head(x); }
extern "C" void q_poptail(Q &q) { q.pop_tail(); }
extern "C" void q_pophead(Q &q) { q.pop_head(); }
extern "C" void q_clear(Q &q) { q.clear(); }
extern "C" bool sa_eq(const SAU &a, const SAU &b) { return a == b; }
extern "C" void sa_restrict(SAU &a, u64 n) { a.restrict(n); }
extern "C" void sa_unrestrict(SAU &a) { a.unrestrict(); }
extern "C" void ca_write(CA &a, u64 i, u32 v) { a.write(i, v); }
extern "C" u32 ca_read(const CA &a, u64 i) { return a[i]; }
extern "C" void cb_write(CB &a, u64 i, u64 v) { a.write(i, v); }
extern "C" u64 cb_read(const CB &a, u64 i) { return a[i]; }
extern "C" u32 ca_iter(const CA &a, u64 i) { return *(a.begin() + i); }
extern "C" bool ca_end(const CA &a) { return a.end() == a.begin() + a.size() && (a.begin() == a.end()) == (a.size() == 0); }
extern "C" bool ca_postinc(const CA &a) { auto it = a.begin(); auto old = it++; return old == a.begin() && it == a.begin() + 1; }
extern "C" bool ca_postdec(const CA &a) { auto it = a.end(); auto old = it--; return old == a.end() && it == a.end() - 1; }
