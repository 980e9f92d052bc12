#include "par.h"
using namespace sim;
using T = gtl::parallel_flat_hash_map_m<Obj, Obj, HashK<Obj>, EqK<Obj>>;   // default: 16 submaps, std::mutex
PAR_HARNESS(fm4, T, true)
