#include "seqhash.h"
using namespace sim;
using T_afs = gtl::flat_hash_set<Obj, HashK<Obj>, EqK<Obj>, SAlloc<Obj, true, true, true>>;
SEQHASH(afs, T_afs, false, false, false, false, true)
