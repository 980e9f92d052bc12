#include "cache.h"
using sim::Obj; using sim::MF1; using sim::MF2;
CACHE_HARNESS(memo_m0, CK_MEMO, true, MF1, gtl::mt_memoize<MF1, false, 0, std::mutex>)
CACHE_HARNESS(memo_s1, CK_MEMO, true, MF2, gtl::mt_memoize<MF2, false, 1, std::shared_mutex>)
CACHE_HARNESS(rmemo_m0, CK_RMEMO, true, MF1, gtl::mt_memoize<MF1, true, 0, std::mutex>)
CACHE_HARNESS(rmemo_s1, CK_RMEMO, true, MF1, gtl::mt_memoize<MF1, true, 1, std::shared_mutex>)
