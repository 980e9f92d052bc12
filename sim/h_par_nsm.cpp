#include "par.h"
using namespace sim;
using T = gtl::parallel_node_hash_set<Obj, HashK<Obj>, EqK<Obj>, std::allocator<Obj>, 1, std::mutex>;
PAR_HARNESS(nsm1, T, false)
