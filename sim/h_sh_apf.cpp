#include "seqhash.h"
using namespace sim;
using T_apf = gtl::parallel_flat_hash_map<Obj, Obj, SHash<Obj>, SEq<Obj>, SAlloc<std::pair<const Obj, Obj>, true, true, false>, 1, gtl::NullMutex>;
SEQHASH(apf, T_apf, true, false, true, false, true)
