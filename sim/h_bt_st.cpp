#include "seqbt.h"
using namespace sim;

using BT_st = gtl::btree_map<std::string, Obj>;   // default comparator for strings: three-way
SEQBT(st, BT_st, std::string, true, false, false)
