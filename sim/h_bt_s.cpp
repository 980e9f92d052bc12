#include "seqbt.h"
using namespace sim;

using BT_s = gtl::btree_set<Obj, TLess>;
SEQBT(s, BT_s, Obj, false, false, true)
