// Extraction unit for C13: sparse maps.
#include "lay.h"
#include <cstdint>
#include "kaminpar-common/datastructures/sparse_map.h"
#include "kaminpar-common/datastructures/fixed_size_sparse_map.h"
#include "kaminpar-common/datastructures/compact_hash_map.h"
using namespace kaminpar;
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using SM = SparseMap<u32, i32>; using F1 = FixedSizeSparseMap<u32, i32, 128>;
LAYSIZE(sm, SM) LAY(sm_cap, SM, _capacity) LAY(sm_size, SM, _size) LAY(sm_data, SM, _data) LAY(sm_sparse, SM, _sparse) LAY(sm_dense, SM, _dense)
LAYSIZE(fm, F1) LAY(fm_cap, F1, _map_size) LAY(fm_init, F1, _initial_value) LAY(fm_size, F1, _size) LAY(fm_ts, F1, _timestamp) LAY(fm_sparse, F1, _sparse) LAY(fm_dense, F1, _dense)
LAYSIZE(se, F1::SparseElement) LAY(se_elem, F1::SparseElement, element) LAY(se_ts, F1::SparseElement, timestamp)
extern "C" bool s_contains(const SM &m, u32 k) { return m.contains(k); }
extern "C" void s_add(SM &m, u32 k, i32 v) { m.add(k, v); }
extern "C" void s_remove(SM &m, u32 k) { m.remove(k); }
extern "C" i32 *s_index(SM &m, u32 k) { return &m[k]; }
extern "C" const i32 *s_get(const SM &m, u32 k) { return &m.get(k); }
extern "C" void s_clear(SM &m) { m.clear(); }
extern "C" u64 s_size(const SM &m) { return m.size(); }
extern "C" bool f_contains(const F1 &m, u32 k) { return m.contains(k); }
extern "C" i32 *f_index(F1 &m, u32 k) { return &m[k]; }
extern "C" const i32 *f_get(const F1 &m, u32 k) { return &m.get(k); }
extern "C" void f_clear(F1 &m) { m.clear(); }
