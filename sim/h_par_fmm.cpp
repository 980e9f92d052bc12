#include "par.h"
using namespace sim;
using T = gtl::parallel_flat_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>, std::allocator<std::pair<const Obj, Obj>>, 0, std::mutex>;
PAR_HARNESS(fmm0, T, true)
