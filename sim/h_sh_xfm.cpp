// the SSSE3 variant of the group of control bytes (compiled with -mssse3); a namespace of its own keeps it apart from the others
#define GTL_HAVE_SSE2 1
#define GTL_HAVE_SSSE3 1
#define gtl gtl_x
#include "seqhash.h"
using namespace sim;
using T_xfm = gtl::flat_hash_map<Obj, Obj, HashK<Obj>, EqK<Obj>>;
SEQHASH(xfm, T_xfm, true, false, false, false, false)
