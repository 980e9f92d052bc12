#include "seqbt.h"
// btree takes the allocator over on move assignment when it does so on copy assignment (its tests pin that), so both traits agree here
using namespace sim;

using BT_bam = gtl::btree_map<Obj, Obj, DLess<Obj>, SAlloc<std::pair<const Obj, Obj>, false, false, true>>;
SEQBTX(bam, BT_bam, Obj, true, false, false, true, BtKey<Obj>)
