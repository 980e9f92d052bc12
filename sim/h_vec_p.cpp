#include "seqvec.h"
using namespace sim;

using VA_p = SAlloc<Obj, true, true, true>;
SEQVEC(p, Obj, VA_p, true)
