#include "seqbt.h"
using namespace sim;

using BT_im = gtl::btree_map<int64_t, Obj>;
SEQBT(im, BT_im, int64_t, true, false, false)
