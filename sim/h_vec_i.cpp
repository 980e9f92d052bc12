#include "seqvec.h"
using namespace sim;

using VA_i = std::allocator<int64_t>;
SEQVEC(i, int64_t, VA_i, false)
