#include "seqhash.h"
using namespace sim;
using PFM = gtl::parallel_flat_hash_map<Obj, Obj, THash, TEq, std::allocator<std::pair<const Obj, Obj>>, 2, gtl::NullMutex>;
SEQHASH(pfm, PFM, true, false, true, true, false)
