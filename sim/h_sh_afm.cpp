#include "seqhash.h"
using namespace sim;
using T_afm = gtl::flat_hash_map<Obj, Obj, SHash<Obj>, SEq<Obj>, SAlloc<std::pair<const Obj, Obj>, false, false, false>>;
SEQHASH(afm, T_afm, true, false, false, false, true)
