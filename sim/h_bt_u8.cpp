#include "seqbt.h"
using namespace sim;

using BT_u8 = gtl::btree_multiset<uint8_t>;   // the most values a node can have
SEQBT(u8, BT_u8, uint8_t, false, true, false)
