#include "seqhash.h"
using namespace sim;
using T_ans = gtl::node_hash_set<Obj, SHash<Obj>, SEq<Obj>, SAlloc<Obj, false, true, false>>;
SEQHASH(ans, T_ans, false, true, false, false, true)
