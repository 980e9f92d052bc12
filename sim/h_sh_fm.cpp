#include "seqhash.h"
using namespace sim;
using FM = gtl::flat_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>>;
SEQHASH(fm, FM, true, false, false, false, false)
