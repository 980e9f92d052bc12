#include "par.h"
using namespace sim;
using FMS = gtl::parallel_flat_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>, std::allocator<std::pair<const Obj, Obj>>, 1, std::shared_mutex>;
PAR_HARNESS(fms1, FMS, true)
