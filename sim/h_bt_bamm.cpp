#include "seqbt.h"
// btree takes the allocator over on move assignment when it does so on copy assignment (its tests pin that), so both traits agree here
using namespace sim;

using BT_bamm = gtl::btree_multimap<Obj, Obj, LessK<Obj>, SAlloc<std::pair<const Obj, Obj>, true, true, true>>;
SEQBTX(bamm, BT_bamm, Obj, true, true, false, true, BtKey<Obj>)
