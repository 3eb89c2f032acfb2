// Extraction unit for C01: instantiates the real VarInt codec, nothing else.
#include <cstdint>
#include <utility>
#include "kaminpar-common/graph_compression/varint.h"
using namespace kaminpar;
typedef std::uint8_t u8; typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32; typedef std::int64_t i64;
template <typename T> struct MR { T v; bool m; };
#define GEN(U, S, B)                                                                                          \
  extern "C" u64 k_len_##B(U i) { return varint_length<U>(i); }                                              \
  extern "C" u64 k_maxlen_##B() { return varint_max_length<U>(); }                                           \
  extern "C" u64 k_enc_##B(U i, u8 *p) { return varint_encode<U>(i, p); }                                    \
  extern "C" void k_encp_##B(U i, u8 **p) { varint_encode<U>(i, p); }                                        \
  extern "C" U k_dec_##B(const u8 *p) { return varint_decode<U>(p); }                                        \
  extern "C" U k_decp_##B(const u8 **p) { return varint_decode<U>(p); }                                      \
  extern "C" U k_decl_##B(const u8 **p) { return varint_decode_loop<U>(p); }                                 \
  extern "C" u64 k_mlen_##B(U i) { return marked_varint_length<U>(i); }                                      \
  extern "C" u64 k_menc_##B(U i, bool m, u8 *p) { return marked_varint_encode<U>(i, m, p); }                 \
  extern "C" void k_mencp_##B(U i, bool m, u8 **p) { marked_varint_encode<U>(i, m, p); }                     \
  extern "C" void k_mdec_##B(const u8 *p, U *v, bool *m) { auto r = marked_varint_decode<U>(p); *v = r.first; *m = r.second; }   \
  extern "C" void k_mdecp_##B(const u8 **p, U *v, bool *m) { auto r = marked_varint_decode<U>(p); *v = r.first; *m = r.second; } \
  extern "C" U k_zenc_##B(S i) { return zigzag_encode<S>(i); }                                               \
  extern "C" S k_zdec_##B(U i) { return zigzag_decode<U>(i); }                                               \
  extern "C" u64 k_slen_##B(S i) { return signed_varint_length<S>(i); }                                      \
  extern "C" u64 k_senc_##B(S i, u8 *p) { return signed_varint_encode<S>(i, p); }                            \
  extern "C" void k_sencp_##B(S i, u8 **p) { signed_varint_encode<S>(i, p); }                                \
  extern "C" S k_sdec_##B(const u8 *p) { return signed_varint_decode<S>(p); }                                \
  extern "C" S k_sdecp_##B(const u8 **p) { return signed_varint_decode<S>(p); }
GEN(u32, i32, 32)
GEN(u64, i64, 64)
#ifdef KAMINPAR_COMPRESSION_FAST_DECODING
extern "C" u32 k_pext_32(const u8 **p) { return varint_decode_pext_unrolled<u32>(p); }
extern "C" u64 k_pext_64(const u8 **p) { return varint_decode_pext_unrolled<u64>(p); }
extern "C" u32 k_pextb_32(const u8 **p) { return varint_decode_pext_branchless<u32>(p); }
#endif
