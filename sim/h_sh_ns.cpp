#include "seqhash.h"
using namespace sim;
using NS = gtl::node_hash_set<Obj, HashK<Obj>, EqK<Obj>>;
SEQHASH(ns, NS, false, true, false, false, false)
