#include "seqbt.h"
using namespace sim;

using BT_mm = gtl::btree_multimap<Obj, Obj, TLess>;
SEQBT(mm, BT_mm, Obj, true, true, true)
