#pragma once
#include "lay.h"
#include "kaminpar-shm/datastructures/csr_graph.h"
#include "kaminpar-common/datastructures/static_array.h"
LAYSIZE(csr, kaminpar::shm::CSRGraph)
LAYSIZE(sa, kaminpar::StaticArray<unsigned>)
LAY(sa_data, kaminpar::StaticArray<unsigned>, _data)
LAY(sa_size, kaminpar::StaticArray<unsigned>, _size)
LAY(csr_nodes, kaminpar::shm::CSRGraph, _nodes)
LAY(csr_edges, kaminpar::shm::CSRGraph, _edges)
LAY(csr_nw, kaminpar::shm::CSRGraph, _node_weights)
LAY(csr_ew, kaminpar::shm::CSRGraph, _edge_weights)
LAY(csr_tnw, kaminpar::shm::CSRGraph, _total_node_weight)
LAY(csr_tew, kaminpar::shm::CSRGraph, _total_edge_weight)
LAY(csr_mnw, kaminpar::shm::CSRGraph, _max_node_weight)
LAY(csr_maxdeg, kaminpar::shm::CSRGraph, _max_degree)
LAY(csr_sorted, kaminpar::shm::CSRGraph, _sorted)
