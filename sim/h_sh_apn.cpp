#include "seqhash.h"
using namespace sim;
using T_apn = gtl::parallel_node_hash_set<Obj, HashK<Obj>, EqK<Obj>, SAlloc<Obj, false, true, true>, 2, gtl::NullMutex>;
SEQHASH(apn, T_apn, false, true, true, false, true)
