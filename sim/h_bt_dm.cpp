#include "seqbt.h"
// the direction of the order is state of the comparator
using namespace sim;

using BT_dm = gtl::btree_map<Obj, Obj, DLess<Obj>>;
SEQBT(dm, BT_dm, Obj, true, false, false)
