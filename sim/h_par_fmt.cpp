#include "par.h"
using namespace sim;
// a mutex whose acquisition can fail, as the standard mutexes may
struct FMutex : std::mutex { void lock() { if (fault_event(F_CALL)) throw Injected{ F_CALL }; std::mutex::lock(); } };
using FMT = gtl::parallel_flat_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>, std::allocator<std::pair<const Obj, Obj>>, 1, FMutex>;
PAR_HARNESSX(fmt1, FMT, true, true)
