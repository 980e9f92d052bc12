#include "seqvec.h"
using namespace sim;

using VA_c = std::allocator<uint8_t>;
SEQVEC(c, uint8_t, VA_c, false)
