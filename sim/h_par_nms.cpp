#include "par.h"
using namespace sim;
using T = gtl::parallel_node_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>, std::allocator<std::pair<const Obj, Obj>>, 2, std::shared_mutex>;
PAR_HARNESS(nms2, T, true)
