#include "seqvec.h"
using namespace sim;

using VA_b = std::allocator<Big>;
SEQVEC(b, Big, VA_b, false)
