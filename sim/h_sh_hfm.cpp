#include "seqhash.h"
// the hash and equality functions have state, which has to stay with the elements
using namespace sim;
using T_hfm = gtl::flat_hash_map<Obj, Obj, SHash<Obj>, SEq<Obj>>;
SEQHASH(hfm, T_hfm, true, false, false, false, false)
