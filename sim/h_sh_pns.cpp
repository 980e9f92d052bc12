#include "seqhash.h"
using namespace sim;
using PNS = gtl::parallel_node_hash_set<Obj, HashK<Obj>, EqK<Obj>, std::allocator<Obj>, 1, gtl::NullMutex>;
SEQHASH(pns, PNS, false, true, true, false, false)
