#include "seqvec.h"
using namespace sim;
using VA_t = std::allocator<TObj>;
SEQVEC(t, TObj, VA_t, false)
