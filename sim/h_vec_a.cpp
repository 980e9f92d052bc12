#include "seqvec.h"
using namespace sim;

using VA_a = SAlloc<Obj, false, false, false>;
SEQVEC(a, Obj, VA_a, true)
