#include "seqhash.h"
using namespace sim;
using T_hpm = gtl::parallel_node_hash_map<Obj, Obj, SHash<Obj>, SEq<Obj>, std::allocator<std::pair<const Obj, Obj>>, 2, gtl::NullMutex>;
SEQHASH(hpm, T_hpm, true, true, true, false, false)
