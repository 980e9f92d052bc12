#include "seqhash.h"
using namespace sim;
using NM = gtl::node_hash_map<Obj, Obj, THash, TEq>;
SEQHASH(nm, NM, true, true, false, true, false)
