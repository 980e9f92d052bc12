#include "par.h"
using namespace sim;
using T = gtl::parallel_flat_hash_set<Obj, HashK<Obj>, EqK<Obj>, std::allocator<Obj>, 0, std::shared_mutex>;
PAR_HARNESS(fss0, T, false)
