#include "seqbt.h"
using namespace sim;

using BT_sg = gtl::btree_multiset<std::string, std::greater<std::string>>;
using KeyDown = BtKey<std::string, -1>;
SEQBTX(sg, BT_sg, std::string, false, true, false, false, KeyDown)
