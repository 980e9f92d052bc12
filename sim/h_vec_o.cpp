#include "seqvec.h"
using namespace sim;

using VA_o = std::allocator<Obj>;
SEQVEC(o, Obj, VA_o, false)
