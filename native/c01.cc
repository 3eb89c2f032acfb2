// Bounded contract run for C01: every 7-bit boundary, verifier counterexample values and random values,
// checked against an independent LEB128 implementation with guard bytes around the code word.
#include "kvc.h"
#include <array>
#include "kaminpar-common/graph_compression/varint.h"
using namespace kaminpar;
typedef std::uint8_t u8;
static std::vector<u8> leb(std::uint64_t v) { std::vector<u8> r; do { u8 b = v & 127; v >>= 7; if (v) b |= 128; r.push_back(b); } while (v); return r; }
static std::vector<u8> mleb(std::uint64_t v, bool m) { std::vector<u8> r; u8 b = (v & 63) | (m ? 64 : 0); v >>= 6; if (v) b |= 128; r.push_back(b); if (v) { auto x = leb(v); r.insert(r.end(), x.begin(), x.end()); } return r; }
static const int PAD = 24;
struct Buf { std::array<u8, 80> b; u8 g; Buf(u8 g) : g(g) { b.fill(g); } u8 *at() { return b.data() + PAD; }
  bool ok(const std::vector<u8> &c) { for (int i = 0; i < 80; ++i) { u8 e = (i >= PAD && i < PAD + (int)c.size()) ? c[i - PAD] : g; if (b[i] != e) return false; } return true; }
  void put(const std::vector<u8> &c) { for (size_t i = 0; i < c.size(); ++i) b[PAD + i] = c[i]; } };
template <typename U> void one(U v) {
  using S = std::make_signed_t<U>;
  S s = (S)v; U z = s < 0 ? (U)(~(U)s * 2 + 1) : (U)((U)s * 2);
  for (u8 g : {(u8)0x00, (u8)0xFF, (u8)0x80}) {
    kvc::begin(kvc::str(sizeof(U) * 8, "-bit value ", (std::uint64_t)v, " guard ", (int)g));
    auto c = leb(v), cz = leb(z);
    KCHECK(varint_length<U>(v) == c.size(), "varint_length = ", varint_length<U>(v), " expected ", c.size());
    KCHECK(varint_max_length<U>() >= c.size(), "varint_max_length too small");
    KCHECK(zigzag_encode<S>(s) == z, "zigzag_encode"); KCHECK((S)zigzag_decode<U>(z) == s, "zigzag_decode");
    { Buf b(g); auto n = varint_encode<U>(v, b.at()); KCHECK(n == c.size() && b.ok(c), "varint_encode"); }
    { Buf b(g); u8 *p = b.at(); varint_encode<U>(v, &p); KCHECK(p == b.at() + c.size() && b.ok(c), "varint_encode(ptr*)"); }
    { Buf b(g); b.put(c); KCHECK(varint_decode<U>((const u8 *)b.at()) == v, "varint_decode"); const u8 *p = b.at(); KCHECK(varint_decode<U>(&p) == v && p == b.at() + c.size(), "varint_decode(ptr*)"); p = b.at(); KCHECK(varint_decode_loop<U>(&p) == v && p == b.at() + c.size(), "varint_decode_loop"); }
    KCHECK(signed_varint_length<S>(s) == cz.size(), "signed_varint_length");
    { Buf b(g); auto n = signed_varint_encode<S>(s, b.at()); KCHECK(n == cz.size() && b.ok(cz), "signed_varint_encode"); }
    { Buf b(g); u8 *p = b.at(); signed_varint_encode<S>(s, &p); KCHECK(p == b.at() + cz.size() && b.ok(cz), "signed_varint_encode(ptr*)"); }
    { Buf b(g); b.put(cz); KCHECK(signed_varint_decode<S>((const u8 *)b.at()) == s, "signed_varint_decode"); const u8 *p = b.at(); KCHECK(signed_varint_decode<S>(&p) == s && p == b.at() + cz.size(), "signed_varint_decode(ptr*)"); }
    for (bool m : {false, true}) {
      auto cm = mleb(v, m);
      KCHECK(marked_varint_length<U>(v) == cm.size(), "marked_varint_length");
      { Buf b(g); auto n = marked_varint_encode<U>(v, m, b.at()); KCHECK(n == cm.size() && b.ok(cm), "marked_varint_encode marker=", m); }
      { Buf b(g); u8 *p = b.at(); marked_varint_encode<U>(v, m, &p); KCHECK(p == b.at() + cm.size() && b.ok(cm), "marked_varint_encode(ptr*) marker=", m); }
      { Buf b(g); b.put(cm); auto r = marked_varint_decode<U>((const u8 *)b.at()); KCHECK(r.first == v && r.second == m, "marked_varint_decode marker=", m);
        const u8 *p = b.at(); auto q = marked_varint_decode<U>(&p); KCHECK(q.first == v && q.second == m && p == b.at() + cm.size(), "marked_varint_decode(ptr*) marker=", m); }
    }
#ifdef KAMINPAR_COMPRESSION_FAST_DECODING
    { Buf b(g); b.put(c); const u8 *p = b.at(); KCHECK(varint_decode_pext_unrolled<U>(&p) == v && p == b.at() + c.size(), "varint_decode_pext_unrolled"); 
      if constexpr (sizeof(U) == 4) { p = b.at(); KCHECK(varint_decode_pext_branchless<U>(&p) == v && p == b.at() + c.size(), "varint_decode_pext_branchless"); } }
#endif
  }
}
template <typename U> void all() {
  for (int k = 0; k < (int)sizeof(U) * 8; ++k) for (int d = -3; d <= 3; ++d) one<U>((U)(((U)1 << k) + (U)d));
  for (int k = 0; k < 700; ++k) one<U>((U)k), one<U>((U)~(U)k);
  for (auto v : kvc::model_values()) one<U>((U)v);
  kvc::Rng r(kvc::g_seed); for (int i = 0; i < (kvc::g_thorough ? 2000000 : 60000); ++i) one<U>((U)r.skew());
}
int main(int a, char **b) { kvc::init(a, b); kvc::g_case = "startup"; all<std::uint32_t>(); all<std::uint64_t>(); return kvc::done(); }
