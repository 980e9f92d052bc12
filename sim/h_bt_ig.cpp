#include "seqbt.h"
using namespace sim;

using BT_ig = gtl::btree_multimap<int64_t, Obj, std::greater<int64_t>>;   // arithmetic keys: linear search
using KeyDownI = BtKey<int64_t, -1>;
SEQBTX(ig, BT_ig, int64_t, true, true, false, false, KeyDownI)
