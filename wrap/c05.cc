// Extraction unit for C05: numbering of the blocks below an inner node of the recursive bisection tree.
#include "kaminpar-shm/partitioning/partition_utils.cc"
typedef std::uint32_t u32;
using namespace kaminpar; using namespace kaminpar::shm;
extern "C" u32 final_k(u32 b, u32 ck, u32 k) { return partitioning::compute_final_k(b, ck, k); }
extern "C" u32 first_sub(u32 b, u32 ck, u32 k) { return partitioning::compute_first_sub_block(b, ck, k); }
extern "C" u32 first_invalid(u32 b, u32 ck, u32 k) { return partitioning::compute_first_invalid_sub_block(b, ck, k); }
extern "C" u32 split_lo(u32 v) { return math::split_integral(v).first; }
extern "C" u32 split_hi(u32 v) { return math::split_integral(v).second; }
extern "C" u32 k_for_n(u32 n, Context &c, u32 C, u32 k) { c.coarsening.contraction_limit = C; c.partition.k = k; return partitioning::compute_k_for_n(n, c); }
extern "C" u32 next_k(u32 cur, Context &c, u32 k) { c.partition.k = k; return partitioning::compute_next_k(cur, c); }
