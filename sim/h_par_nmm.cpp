#include "par.h"
using namespace sim;
using T = gtl::parallel_node_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>, std::allocator<std::pair<const Obj, Obj>>, 1, std::mutex>;
PAR_HARNESS(nmm1, T, true)
