#include "seqbt.h"
using namespace sim;
struct Cmp3 { gtl::weak_ordering operator()(const Obj& a, const Obj& b) const { return val(a) < val(b) ? gtl::weak_ordering::less : val(b) < val(a) ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; } };
using BT_ms = gtl::btree_multiset<Obj, Cmp3>;
SEQBT(ms, BT_ms, Obj, false, true, false)
