// Extraction unit for C10: decoding and gap encoding of compressed neighbourhoods.  The varint codec is called through its
// contract (C01).
#include "lay.h"
#include <span>
#include "kaminpar-common/graph_compression/compressed_neighborhoods.h"
#include "kaminpar-common/graph_compression/compressed_edges_builder.h"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::uint8_t u8;
using namespace kaminpar;
typedef CompressedNeighborhoods<u32, u32, i32> CN; typedef CompressedEdgesBuilder<u32, u32, i32> CEB;
LAY(ceb_cur, CEB, _cur_compressed_edges) LAY(ceb_w, CEB, _has_edge_weights) LAY(ceb_tew, CEB, _total_edge_weight) LAYSIZE(ceb, CEB)
extern "C" void kvc_visit(u32 v, i32 w) noexcept;
extern "C" bool kvc_visit_stop(u32 v, i32 w) noexcept;
extern "C" bool d_plain(const CN &g, const u8 *p, u32 node, u32 degree) { return g.decode_edges<false>(p, node, degree, false, [](u32 v) { kvc_visit(v, 1); }); }
extern "C" bool d_plain_w(const CN &g, const u8 *p, u32 node, u32 degree) { return g.decode_edges<true>(p, node, degree, false, [](u32 v, i32 w) { kvc_visit(v, w); }); }
extern "C" bool d_stop_w(const CN &g, const u8 *p, u32 node, u32 degree) { return g.decode_edges<true>(p, node, degree, false, [](u32 v, i32 w) { return kvc_visit_stop(v, w); }); }
extern "C" bool d_iv(const CN &g, const u8 *p, u32 node, u32 degree) { return g.decode_edges<false>(p, node, degree, true, [](u32 v) { kvc_visit(v, 1); }); }
extern "C" bool d_iv_w(const CN &g, const u8 *p, u32 node, u32 degree) { return g.decode_edges<true>(p, node, degree, true, [](u32 v, i32 w) { kvc_visit(v, w); }); }
extern "C" void e_gaps(CEB &b, u32 node, u32 degree, i32 *pw, std::span<u32> *c) { b.encode_gaps(node, degree, *pw, *c); }
extern "C" void e_gaps_w(CEB &b, u32 node, u32 degree, i32 *pw, std::span<std::pair<u32, i32>> *c) { b.encode_gaps(node, degree, *pw, *c); }
