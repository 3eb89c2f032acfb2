BASE='Proof over all inputs of every obligation generated from the current source (memory safety, loop invariants, postconditions); trusted: the extraction by clang -O1 without inlining-external code, the kvc verification-condition generator, z3/cvc5. '
PROPS=[
{'id':'C01','title':'Variable-length integer codes round-trip exactly','statement':'Every 32- or 64-bit value, signed value or marked value written with the variable-length integer codec is read back unchanged. Reading consumes exactly the bytes that writing produced and that the length query announced, and neither operation touches any byte outside the code word.',
 'over':['inputs'],'qtext':'every value of both widths, every marker, every surrounding memory content','why':'The tests sample a few dozen values per width; the claim is about all 2^64 values and about bytes not touched.',
 'files':['kaminpar-common/graph_compression/varint.h'],'mech':[('encoder/decoder/length','kaminpar-common/graph_compression/varint.h')],
 'note':BASE+'Complete: every codec function in both widths is under contract, no assumption on inputs.'},
{'id':'C02','title':'Priority queues always expose a best entry and never lose or invent entries','statement':'After any history of insertions, removals, pops and priority changes, every addressable priority queue contains exactly the entries inserted and not yet removed, each with its latest key. The entry offered at the top has the extreme key among all contained entries, and queries for containment, key and size agree with that set.',
 'over':['histories','inputs'],'qtext':'every history of operations on every queue variant, every capacity, every key','why':'The tests replay a few fixed histories on queues with at most a dozen entries.',
 'files':['kaminpar-common/datastructures/binary_heap.h'],'mech':[('sift up/down','kaminpar-common/datastructures/binary_heap.h'),('id to position table','kaminpar-common/datastructures/binary_heap.h')],
 'note':BASE+'Each public operation preserves the representation invariant and meets its functional contract from every valid state; integer keys. Floating-point keys, the min-max pairing and resizing are covered by the bounded run only. Keys are assumed strictly below the reserved extreme value.'},
{'id':'C03','title':'Integer helpers compute exact logarithms, roundings and buckets','statement':'Power-of-two rounding, floor and ceiling logarithms, rounded division, byte widths, bit masks, grid positions and degree buckets equal their mathematical definitions for every representable argument. Every degree falls into exactly one bucket, between that bucket\'s lowest degree and the next bucket\'s lowest degree.',
 'over':['inputs'],'qtext':'every 32- and 64-bit argument for which the result is representable','why':'Tests check a few dozen small arguments; word-size boundaries decide the interesting cases.',
 'files':['kaminpar-common/math.h','kaminpar-common/degree_buckets.h'],'mech':[('bit arithmetic','kaminpar-common/math.h'),('degree buckets','kaminpar-common/degree_buckets.h')],
 'note':BASE+'All bit-level helpers in both widths; the floating-point splitter, square test and statistics helpers are covered by the bounded run only.'},
{'id':'C04','title':'Ranges handed to workers tile the index space and owners are exact','statement':'Splitting n elements among any number of workers or processes gives contiguous ranges that are disjoint, cover every element exactly once, and differ in size by at most one. The owner computed for an element is the worker whose range contains it, and parallel loops built on these ranges visit every element exactly once, in the announced order of chunks.',
 'over':['inputs','schedules'],'qtext':'every n, worker count, rank and element of both widths; every distribution; any schedule of the loop bodies','why':'Rounding and overflow at range boundaries only show for particular combinations of n and worker count.',
 'files':['kaminpar-common/math.h','kaminpar-common/parallel/loops.h'],'mech':[('range arithmetic','kaminpar-common/math.h'),('chunked loops','kaminpar-common/parallel/loops.h')],
 'note':BASE+'Ranges, owners and the search in a distribution are proved for all inputs; the TBB loops on top of them are run in a bounded way with 1 to 8 threads.'},
{'id':'C05','title':'Recursive bisection numbers blocks consistently on every level','statement':'On every level of the recursive bisection tree, the number of final blocks below a block is the larger half for a left child and the smaller half for a right child of its parent, so that the blocks of a level, each with its first and one-past-last final block, tile the k final blocks in order without gap or overlap. A fully split block stands for exactly itself, and the number of blocks chosen for a graph size is between 2 and k, doubles from level to level and never exceeds k.',
 'over':['inputs'],'qtext':'every k up to 2^31, every level, every block; every graph size and contraction limit','why':'The formulas use digit reversal on block numbers; small k exercise only the lowest digits.',
 'files':['kaminpar-shm/partitioning/partition_utils.cc'],'mech':[('final blocks below a block','kaminpar-shm/partitioning/partition_utils.cc')],
 'note':BASE+'The tiling is an induction over levels whose steps are all discharged as obligations. The number of graph copies (floating-point logarithm) is covered by the bounded run only.'},
{'id':'C06','title':'Block weights equal the sums of their nodes under every schedule of moves','statement':'A partitioned graph reports, for every block, exactly the total weight of the nodes assigned to it: after construction (parallel or sequential, with assigned or unassigned nodes, any number of blocks) and after any history of moves, weight shifts and assignments by any number of threads on different nodes. A move or shift succeeds exactly when the weight fits below the limit given for the target block; otherwise it changes nothing. No successful move, under any interleaving, lifts a block above the limit it was given.',
 'over':['schedules','histories','inputs'],'qtext':'every graph, partition and block count; every interleaving of movers; every limit','why':'Unit tests build a handful of tiny graphs on one thread; the claim is about all interleavings of atomic updates.',
 'files':['kaminpar-shm/datastructures/partitioned_graph.h'],'mech':[('moves and weight shifts','kaminpar-shm/datastructures/partitioned_graph.h'),('initial block weights','kaminpar-shm/datastructures/partitioned_graph.h')],
 'note':BASE+'Moves are proved by rely/guarantee reasoning: between any two accesses of a thread all block weights may change arbitrarily. Block weights and limits are assumed to be at most 2^30-1. TBB loops are replaced during extraction by a sequential stand-in that visits environment-chosen chunks.'},
{'id':'C07','title':'Parallel reductions, scans and atomics equal their sequential meaning','statement':'For every input and every way the scheduler splits, reuses and joins work, the parallel sum, maximum, largest difference and prefix sum (in place or into another array) equal the sequential results. The aligned prefix sum places every element at a multiple of its alignment behind the end of the previous element, without overlap, and reports the total size. Every operator of the atomic wrapper performs the operation it is named after as one indivisible update and returns the value the built-in operator would return.',
 'over':['inputs','schedules'],'qtext':'every input array; every division into chunks, splits and joins; every value','why':'Results depend on how TBB divides the range, which small tests never exercise.',
 'files':['kaminpar-common/parallel/algorithm.h','kaminpar-common/parallel/aligned_prefix_sum.h','kaminpar-common/parallel/atomic.h'],'mech':[('reductions and scans','kaminpar-common/parallel/algorithm.h'),('aligned prefix sum','kaminpar-common/parallel/aligned_prefix_sum.h'),('atomic wrapper','kaminpar-common/parallel/atomic.h')],
 'note':BASE+'The reduction bodies and scan lambdas are proved for every division chosen by the environment; the three-pass parallel aligned prefix sum is covered by its sequential part (proved for alignment 8) and a bounded run. Sums are assumed representable.'},
{'id':'C08','title':'Reported partition metrics equal their definitions','statement':'For every partition of every graph, the reported edge cut (parallel and sequential) is the total weight of the edges whose endpoints lie in different blocks, each undirected edge counted once; the total overload is the sum of the weights by which blocks exceed their limits; a partition is reported balanced and feasible exactly when no block exceeds its limit; the imbalance is the relative excess of the heaviest block over the average block weight rounded up, and never negative.',
 'over':['inputs','schedules'],'qtext':'every graph, partition and limits; every split of the node range among threads','why':'The tests evaluate the metrics on a few tiny graphs; a metric that lies on some inputs hides every other defect.',
 'files':['kaminpar-shm/metrics.h'],'mech':[('edge cut, overload, balance','kaminpar-shm/metrics.h'),('neighbour iteration','kaminpar-shm/datastructures/csr_graph.h')],
 'note':BASE+'edge_cut, edge_cut_seq, total_overload, is_balanced and is_feasible are proved for the uncompressed graph; the floating-point imbalance and the compressed graph are covered by bounded runs only.'},
{'id':'C09','title':'Graph objects report exactly the data they were built from','statement':'A graph object built from offsets, targets and weights (parallel, sequential, or as a copy of another graph; with or without weights) reports for every node exactly its degree, weight and neighbours with their edge weights, in order. Limited, stoppable and parallel traversals visit exactly the requested neighbours. Node and edge counts, total weights, maximum degree and maximum node weight equal those of the data, and the degree buckets of a sorted graph partition its nodes. Removing isolated nodes and putting them back keeps all of this true.',
 'over':['inputs','schedules','histories'],'qtext':'every graph (including the empty graph), every node, every neighbour limit, every division of parallel traversals','why':'Every algorithm reads the graph through these accessors; the tests check a few graphs with fewer than ten nodes.',
 'files':['kaminpar-shm/datastructures/csr_graph.h','kaminpar-shm/datastructures/csr_graph.cc'],'mech':[('accessors and traversals','kaminpar-shm/datastructures/csr_graph.h'),('totals, buckets, isolated nodes','kaminpar-shm/datastructures/csr_graph.cc')],
 'note':BASE+'Accessors, all traversals, update_total_node_weight and the removal/re-integration of isolated nodes are proved; constructors and the degree buckets of sorted graphs are covered by the bounded run (their reductions are proved under C07).'},
{'id':'C10','title':'Compressed graphs represent exactly the original graph','statement':'Compressing a graph, sequentially or in parallel, with any combination of gap, interval, high-degree and StreamVByte encoding, with or without weights, yields an object that reports for every node the same degree, weight and neighbours with the same edge weights as the original graph, together with its node and edge counts, total weights, maximum degree and degree buckets. Limited, stoppable and parallel traversals of compressed neighbourhoods visit exactly the requested neighbours. Encoders write exactly the bytes decoders read.',
 'over':['inputs','schedules'],'qtext':'every sorted neighbourhood, every degree, every edge weight, every gap and interval structure','why':'A neighbourhood that decodes differently silently changes the graph being partitioned; the tests compress a few small graphs with one encoding.',
 'files':['kaminpar-common/graph_compression/compressed_neighborhoods.h','kaminpar-common/graph_compression/compressed_edges_builder.h','kaminpar-shm/datastructures/compressed_graph.h','kaminpar-shm/graphutils/compressed_graph_builder.cc','kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc'],'mech':[('decoder','kaminpar-common/graph_compression/compressed_neighborhoods.h'),('encoder','kaminpar-common/graph_compression/compressed_edges_builder.h')],
 'note':BASE+'decode_edges (gap, weighted, stoppable, interval) and encode_gaps are proved against one description of the token stream over the contracts of the varint codecs; interval search, high-degree parts, offsets, StreamVByte and the builders are covered by the bounded run in three configurations.'},
{'id':'C11','title':'Contraction keeps weights and cuts, projections are faithful','statement':'Contracting a graph by any clustering, with any of the contraction algorithms, on plain or compressed graphs, yields a coarse graph whose nodes correspond one to one to the used cluster labels, numbered consecutively: every coarse node weighs as much as its cluster, every coarse edge weighs as much as all fine edges between the two clusters, there are no self-loops and no parallel edges, and no other edges. Hence every partition of the coarse graph has the same cut and block weights as its projection to the fine graph. Projecting data up gives every fine node the value of its cluster, projecting down gives every coarse node the value of one of its nodes. Buffers reused from earlier contractions never influence the result.',
 'over':['inputs','schedules','histories'],'qtext':'every graph, clustering, contraction algorithm and history of reused buffers','why':'A lost or doubled coarse edge makes every later cut value wrong, and shows only for particular degrees, buffer fill states and reuse histories.',
 'files':['kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc','kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h','kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc','kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc'],'mech':[('labels, mapping and buckets','kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc'),('projections','kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.h')],
 'note':BASE+'The numbering of clusters, the mapping, the node buckets (with freshly allocated and with reused buffers) and both projections are proved; the aggregation of edges in the six contraction algorithms is covered by the bounded run.'},
{'id':'C13','title':'Sparse maps and hash tables behave like ordinary maps','statement':'After any history of insertions, updates, removals and clears, every sparse map, linear-probing hash map, rating map, fast-reset array and compact hash map answers each query like an ordinary map that saw the same history: a key is contained exactly if it was inserted and not removed since, its value is the accumulated one, the size is the number of contained keys, and iteration lists every contained key exactly once. Clearing leaves no entry behind, and growing a table loses none.',
 'over':['inputs','histories'],'qtext':'every history of operations, every key, every collision pattern, every timestamp','why':'Collisions that wrap around the end of a table, erasures inside probe sequences and stale cells after a clear need specific histories that fixed tests do not produce.',
 'files':['kaminpar-common/datastructures/sparse_map.h','kaminpar-common/datastructures/fixed_size_sparse_map.h','kaminpar-common/datastructures/dynamic_map.h','kaminpar-common/datastructures/rating_map.h','kaminpar-common/datastructures/fast_reset_array.h','kaminpar-common/datastructures/concurrent_fast_reset_array.h','kaminpar-common/datastructures/compact_hash_map.h'],'mech':[('sparse/dense cross links','kaminpar-common/datastructures/sparse_map.h'),('linear probing and timestamps','kaminpar-common/datastructures/fixed_size_sparse_map.h'),('growth and rehashing','kaminpar-common/datastructures/dynamic_map.h'),('backward-shift erasure','kaminpar-common/datastructures/compact_hash_map.h')],
 'note':BASE+'SparseMap and FixedSizeSparseMap are proved: every operation preserves the representation invariant (cross links; probe sequences without holes) and meets its contract. The other maps are covered by the bounded run, the compact hash map exhaustively for small tables.'},
{'id':'C14','title':'Containers keep what was stored in them','statement':'Markers, queues, static arrays, byte-packed arrays, rank bit vectors, bounded vectors, circular counters and navigable lists return what was stored: a marker is set exactly if it was set since the last reset, for any number of resets and markers; a packed array returns every value unchanged for each byte width and writing one entry changes no other; a queue delivers its entries in order; comparing arrays compares all elements; rank counts the ones before a position; and restricting an array is undone by unrestricting it.',
 'over':['inputs','histories'],'qtext':'every history of operations, every size, every byte width, every timestamp','why':'Wide timestamps, narrow byte widths, superblock borders and wrap-around positions are not reached by the few small histories a test performs.',
 'files':['kaminpar-common/datastructures/'+x for x in ('marker.h','queue.h','static_array.h','compact_static_array.h','bitvector_rank.h','maxsize_vector.h','concurrent_circular_vector.h','ts_navigable_linked_list.h')],'mech':[('timestamped marks','kaminpar-common/datastructures/marker.h'),('byte packing','kaminpar-common/datastructures/compact_static_array.h'),('rank structure','kaminpar-common/datastructures/bitvector_rank.h'),('element-wise operations','kaminpar-common/datastructures/static_array.h')],
 'note':BASE+'Markers (1 and 3 concurrent ones), queues, the packed array for every byte width of 32- and 64-bit integers with its iterators, and comparison and restriction of static arrays are proved. Rank, bounded vectors, circular counters and navigable lists are covered by the bounded run.'},
{'id':'C12','title':'Cached gains equal the gains computed from the partition',
'statement':'For every gain cache (dense table, mixed sparse, hashing, compact hashing, on the fly) the reported connection of a node to a block equals the total weight of its edges into that block, the reported gain of a move equals the connection to the target minus the connection to the source, and a node counts as border node exactly when it has an edge into another block: after initialization and after every history of moves that are announced to the cache, including concurrent moves once they are complete. A delta partition and a delta gain cache report what the shared partition and cache would report if the moves of the local search had been applied, and leave the shared state untouched.',
'over':['inputs','schedules','histories'],'qtext':'every graph, partition and history of moves, every interleaving of concurrent moves','why':'A wrong entry only shows after a specific history of moves, for nodes at a degree threshold, for wide rows or under a race; the tests have no check of cached gains against the definition.',
'files':['kaminpar-shm/refinement/gains/dense_gain_cache.h','kaminpar-shm/refinement/gains/sparse_gain_cache.h','kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h','kaminpar-shm/refinement/gains/hashing_gain_cache.h','kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h','kaminpar-shm/refinement/gains/delta_gain_caches.h','kaminpar-shm/datastructures/delta_partitioned_graph.h'],'mech':[('atomic updates of both entries of every neighbour','kaminpar-shm/refinement/gains/dense_gain_cache.h'),('degree-dependent layout and bit locks','kaminpar-shm/refinement/gains/sparse_gain_cache.h'),('delta lookups on top of the shared cache','kaminpar-shm/refinement/gains/delta_gain_caches.h')],
'note':BASE+'Proved: dense cache (initialization, conn, gain, border, move under concurrency), tabular part of the mixed cache (same, plus the bit lock), on-the-fly cache, delta partition (block, set_block, block_weight), delta gain cache over the dense cache (conn, gain, move). Bounded: hash-based caches and gains() iteration.'},
{'id':'C17','title':'The library returns a valid partition of the graph it was given',
'statement':'For every graph with at least one node, number of blocks, thread count and preset, the partition returned through the public interface assigns every node, in the numbering of the input, exactly one block below the requested number of blocks; nothing beyond the result array is written, a graph that was copied is left as it was, and the returned value is the weight of the edges between different blocks. Block limits given as weights are passed on unchanged; for graphs with unit node weights no block is heavier than its limit, for every preset that rebalances. Isolated nodes cut off during preprocessing are put back, also for repeated calls.',
'over':['inputs','schedules','histories'],'qtext':'every graph, block count, limit, thread count and preset; repeated calls','why':'Defects need edgeless graphs, renamed nodes, missing weights, one block or many blocks, or repeated calls; the tests run a few fixed graphs.',
'files':['kaminpar-shm/kaminpar.cc','kaminpar-shm/kaminpar.h','kaminpar-shm/graphutils/permutator.cc','kaminpar-shm/factories.cc'],'mech':[('cut off, partition, put back, rename','kaminpar-shm/kaminpar.cc'),('balance constraint of the call','kaminpar-shm/kaminpar.h')],
'note':BASE+'Proved: KaMinPar::compute_partition as a composition over the contracts of the graph, the partitioner (assumed: returns a partition of all its nodes) and the re-integration of isolated nodes; copy_graph; PartitionContext::setup with block weights, max_block_weight, total_max_block_weights. Bounded: the partitioning pipeline itself under every preset, balance for unit weights.'},
{'id':'C19','title':'Renaming nodes, reordering edges, setting isolated nodes aside keep the graph',
'statement':'For every graph the degree-bucket permutation is a bijection with its inverse that orders the nodes by degree bucket with isolated nodes last; the renamed graph has, for every node under its new name, the node weight and exactly the neighbours (under their new names) and edge weights of the old one. Reordering edges by compression only permutes the edges of every node together with their weights. The number of isolated nodes is counted exactly, cutting them off and integrating them again restores the graph, and putting them back into a partition keeps every other assignment, gives every isolated node an existing block, and lets no block but the last grow beyond its limit (no block at all for unit weights when the limits leave enough room).',
'over':['inputs','schedules'],'qtext':'every graph, weights and limits, every thread count','why':'Mistakes need weights, several isolated nodes, several runs of neighbours or non-involutive permutations; the tests use tiny unweighted graphs.',
'files':['kaminpar-shm/graphutils/permutator.h','kaminpar-shm/graphutils/permutator.cc','kaminpar-shm/datastructures/csr_graph.h'],'mech':[('permutation and permuted graph','kaminpar-shm/graphutils/permutator.h'),('isolated nodes, edge reordering','kaminpar-shm/graphutils/permutator.cc')],
'note':BASE+'Proved: build_permuted_graph (weighted or not), count_isolated_nodes, assign_isolated_nodes (general and unit weights). Bounded: the bucket permutation itself, rearrange_by_degree_buckets, cut-off and re-integration, reorder_edges_by_compression.'},
]
NOT_APPLICABLE=[]
NOTES=''
