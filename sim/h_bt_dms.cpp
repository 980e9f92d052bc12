#include "seqbt.h"
using namespace sim;

using BT_dms = gtl::btree_multiset<Obj, DLess<Obj>>;
SEQBT(dms, BT_dms, Obj, false, true, false)
