#include "seqbt.h"
// btree takes the allocator over on move assignment when it does so on copy assignment (its tests pin that), so both traits agree here
using namespace sim;

using BT_bams = gtl::btree_multiset<Obj, DLess<Obj>, SAlloc<Obj, false, false, false>>;
SEQBTX(bams, BT_bams, Obj, false, true, false, true, BtKey<Obj>)
