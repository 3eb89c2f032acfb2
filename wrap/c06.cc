// Extraction unit for C06: block assignment and block weights of the partitioned graph.
#include "csr_lay.h"
#include "kaminpar-shm/datastructures/partitioned_graph.h"
typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int32_t i32;
using namespace kaminpar; using namespace kaminpar::shm;
typedef GenericPartitionedGraph<CSRGraph> PG;
LAYSIZE(pg, PG) LAY(pg_graph, PG, _graph) LAY(pg_k, PG, _k) LAY(pg_part, PG, _partition) LAY(pg_bw, PG, _block_weights)
extern "C" bool pg_move(PG &p, u32 u, u32 from, u32 to, i32 max) { return p.move(u, from, to, max); }
extern "C" void pg_set(PG &p, u32 u, u32 to) { p.set_block(u, to); }
extern "C" void pg_set_only(PG &p, u32 u, u32 to) { p.set_block<false>(u, to); }
extern "C" bool pg_shift(PG &p, u32 from, u32 to, i32 d, i32 max) { return p.move_block_weight(from, to, d, max); }
extern "C" void pg_inc(PG &p, u32 b, i32 d) { p.increase_block_weight(b, d); }
extern "C" void pg_dec(PG &p, u32 b, i32 d) { p.decrease_block_weight(b, d); }
extern "C" void pg_setw(PG &p, u32 b, i32 d) { p.set_block_weight(b, d); }
extern "C" i32 pg_weight(const PG &p, u32 b) { return p.block_weight(b); }
extern "C" u32 pg_block(const PG &p, u32 u) { return p.block(u); }
extern "C" void pg_init_seq(PG &p) { p.init_block_weights_seq(); }
extern "C" void pg_init_par(PG &p) { p.init_block_weights_par(); }
