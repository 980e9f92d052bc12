#include "seqhash.h"
using namespace sim;
using FS = gtl::flat_hash_set<Obj, THash, TEq>;
SEQHASH(fs, FS, false, false, false, true, false)
