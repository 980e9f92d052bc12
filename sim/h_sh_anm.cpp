#include "seqhash.h"
using namespace sim;
using T_anm = gtl::node_hash_map<Obj, Obj, SHash<Obj>, SEq<Obj>, SAlloc<std::pair<const Obj, Obj>, true, false, true>>;
SEQHASH(anm, T_anm, true, true, false, false, true)
