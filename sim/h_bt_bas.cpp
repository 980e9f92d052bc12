#include "seqbt.h"
// btree takes the allocator over on move assignment when it does so on copy assignment (its tests pin that), so both traits agree here
using namespace sim;

using BT_bas = gtl::btree_set<Obj, LessK<Obj>, SAlloc<Obj, true, true, false>>;
SEQBTX(bas, BT_bas, Obj, false, false, false, true, BtKey<Obj>)
