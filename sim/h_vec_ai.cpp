#include "seqvec.h"
using namespace sim;

using VA_ai = SAlloc<int64_t, true, false, true>;
SEQVEC(ai, int64_t, VA_ai, true)
