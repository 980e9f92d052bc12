#include "seqhash.h"
using namespace sim;
using T_hns = gtl::node_hash_set<Obj, SHash<Obj>, SEq<Obj>>;
SEQHASH(hns, T_hns, false, true, false, false, false)
