// Extraction unit for C02: the addressable priority queues, every public operation.
#include <stdexcept>
#include "kaminpar-common/datastructures/binary_heap.h"
using namespace kaminpar;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
#define HEAP(T, P)                                                                                             \
  extern "C" bool P##_empty(const T &h) { return h.empty(); }                                                  \
  extern "C" u64 P##_size(const T &h) { return h.size(); }                                                     \
  extern "C" bool P##_contains(const T &h, u64 id) { return h.contains(id); }                                  \
  extern "C" i32 P##_key(const T &h, u64 id) { return h.key(id); }                                             \
  extern "C" u64 P##_peekid(const T &h) { return h.peek_id(); }                                                \
  extern "C" i32 P##_peekkey(const T &h) { return h.peek_key(); }                                              \
  extern "C" void P##_push(T &h, u64 id, i32 k) { h.push(id, k); }                                             \
  extern "C" void P##_pop(T &h) { h.pop(); }                                                                   \
  extern "C" void P##_remove(T &h, u64 id) { h.remove(id); }                                                   \
  extern "C" void P##_change(T &h, u64 id, i32 k) { h.change_priority(id, k); }                                \
  extern "C" void P##_pushchange(T &h, u64 id, i32 k) { h.push_or_change_priority(id, k); }                    \
  extern "C" void P##_decrease(T &h, u64 id, i32 k) { h.decrease_priority(id, k); }                            \
  extern "C" void P##_increase(T &h, u64 id, i32 k) { h.increase_priority(id, k); }                            \
  extern "C" void P##_clear(T &h) { h.clear(); }
using MaxH = BinaryMaxHeap<i32>; using MinH = BinaryMinHeap<i32>;
using SMaxH = SharedBinaryMaxHeap<i32>; using SMinH = SharedBinaryMinHeap<i32>;
HEAP(MaxH, max) HEAP(MinH, min) HEAP(SMaxH, smax) HEAP(SMinH, smin)
using FMax = DynamicBinaryMaxForest<u32, i32>; using FMin = DynamicBinaryMinForest<u32, i32>;
#define FOREST(T, P)                                                                                           \
  extern "C" bool P##_empty(const T &h, u64 t) { return h.empty(t); }                                          \
  extern "C" u64 P##_size(const T &h, u64 t) { return h.size(t); }                                             \
  extern "C" bool P##_contains(const T &h, u32 id) { return h.contains(id); }                                  \
  extern "C" i32 P##_key(const T &h, u64 t, u32 id) { return h.key(t, id); }                                   \
  extern "C" u32 P##_peekid(const T &h, u64 t) { return h.peek_id(t); }                                        \
  extern "C" i32 P##_peekkey(const T &h, u64 t) { return h.peek_key(t); }                                      \
  extern "C" void P##_push(T &h, u64 t, u32 id, i32 k) { h.push(t, id, k); }                                   \
  extern "C" void P##_pop(T &h, u64 t) { h.pop(t); }                                                           \
  extern "C" void P##_remove(T &h, u64 t, u32 id) { h.remove(t, id); }                                         \
  extern "C" void P##_change(T &h, u64 t, u32 id, i32 k) { h.change_priority(t, id, k); }                      \
  extern "C" void P##_decrease(T &h, u64 t, u32 id, i32 k) { h.decrease_priority(t, id, k); }                  \
  extern "C" void P##_increase(T &h, u64 t, u32 id, i32 k) { h.increase_priority(t, id, k); }                  \
  extern "C" void P##_clear(T &h, u64 t) { h.clear(t); }
FOREST(FMax, fmax) FOREST(FMin, fmin)
using DMax = DynamicBinaryMaxHeap<u32, i32>; using DMin = DynamicBinaryMinHeap<u32, i32>;
#define DYN(T, P)                                                                                              \
  extern "C" bool P##_empty(const T &h) { return h.empty(); }                                                  \
  extern "C" u64 P##_size(const T &h) { return h.size(); }                                                     \
  extern "C" u32 P##_peekid(const T &h) { return h.peek_id(); }                                                \
  extern "C" i32 P##_peekkey(const T &h) { return h.peek_key(); }                                              \
  extern "C" void P##_push(T &h, u32 id, i32 k) { h.push(id, k); }                                             \
  extern "C" void P##_pop(T &h) { h.pop(); }                                                                   \
  extern "C" void P##_clear(T &h) { h.clear(); }
DYN(DMax, dmax) DYN(DMin, dmin)
