#include "seqbt.h"
using namespace sim;
struct Cmp3 { gtl::weak_ordering operator()(const Obj& a, const Obj& b) const { return val(a) < val(b) ? gtl::weak_ordering::less : val(b) < val(a) ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; } };
using BT_s3 = gtl::btree_set<Obj, Cmp3>;
SEQBT(s3, BT_s3, Obj, false, false, false)
