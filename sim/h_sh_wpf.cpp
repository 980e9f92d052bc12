// the group of control bytes for machines without SSE2; a namespace of its own keeps it apart from the others
#define GTL_HAVE_SSE2 0
#define GTL_HAVE_SSSE3 0
#define gtl gtl_w
#include "seqhash.h"
using namespace sim;
using T_wpf = gtl::parallel_flat_hash_set<Obj, HashK<Obj>, EqK<Obj>, std::allocator<Obj>, 2, gtl::NullMutex>;
SEQHASH(wpf, T_wpf, false, false, true, false, false)
