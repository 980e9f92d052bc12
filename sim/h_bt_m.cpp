#include "seqbt.h"
using namespace sim;

using BT_m = gtl::btree_map<Obj, Obj, LessK<Obj>>;
SEQBT(m, BT_m, Obj, true, false, false)
