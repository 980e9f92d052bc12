// the group of control bytes for machines without SSE2; a namespace of its own keeps it apart from the others
#define GTL_HAVE_SSE2 0
#define GTL_HAVE_SSSE3 0
#define gtl gtl_w
#include "seqhash.h"
using namespace sim;
using T_wns = gtl::node_hash_set<Obj, HashK<Obj>, EqK<Obj>>;
SEQHASH(wns, T_wns, false, true, false, false, false)
