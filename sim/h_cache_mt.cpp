#include "cache.h"
using sim::Obj; using sim::MF1; using sim::MF2;
CACHE_HARNESS(lru_m0, CK_LRU, true, void, gtl::lru_cache_impl<Obj, Obj, 0, sim::HashK<Obj>, sim::EqK<Obj>, std::mutex>)
CACHE_HARNESS(lru_s1, CK_LRU, true, void, gtl::lru_cache_impl<Obj, Obj, 1, sim::HashK<Obj>, sim::EqK<Obj>, std::shared_mutex>)
CACHE_HARNESS(mlru_m0, CK_MLRU, true, MF1, gtl::mt_memoize_lru<MF1, 0, std::mutex>)
CACHE_HARNESS(mlru_s1, CK_MLRU, true, MF2, gtl::mt_memoize_lru<MF2, 1, std::shared_mutex>)
