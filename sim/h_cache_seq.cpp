#include "cache.h"
using sim::Obj; using sim::MF1; using sim::MF2;
CACHE_HARNESS(lru0, CK_LRU, false, void, gtl::lru_cache<Obj, Obj, sim::HashK<Obj>, sim::EqK<Obj>>)
CACHE_HARNESS(lru1, CK_LRU, false, void, gtl::lru_cache_impl<Obj, Obj, 1, sim::HashK<Obj>, sim::EqK<Obj>, std::mutex>)
CACHE_HARNESS(mlru0, CK_MLRU, false, MF1, gtl::memoize_lru<MF1, 0>)
CACHE_HARNESS(mlru1, CK_MLRU, false, MF2, gtl::memoize_lru<MF2, 1>)
CACHE_HARNESS(memo0, CK_MEMO, false, MF2, gtl::mt_memoize<MF2, false, 0, std::mutex>)
CACHE_HARNESS(rmemo0, CK_RMEMO, false, MF1, gtl::memoize<MF1, 0>)
CACHE_HARNESS(rmemo1, CK_RMEMO, false, MF1, gtl::memoize<MF1>)

// known finding: a copied cache shares list positions with its source
namespace {
void kf_gen(sim::Rng& r, sim::Case& c) {
    c.params = { r.range(1, 3) };
    c.threads.resize(1);
    sim::Op o; o.a = (int64_t)r.below(2); c.threads[0].push_back(o);
}
const char* kf_opname(int, int) { return "copy"; }
template<class T> void kf_use(T* c) {
    if constexpr (std::is_same_v<T, lru0_t>) { Obj k(0); auto r = c->get(k); if (!r || sim::val(*r) != 5) sim::fail("model", "copied cache lost an entry"); }
    else { Obj k(0); Obj r = (*c)(k); if (sim::val(r) != 3) sim::fail("model", "copied cache returned another value"); }
}
struct KfHost : sim::MemoHost { int64_t f(int64_t k) override { return k * 7 + 3; } } kf_host;
void kf_run(const sim::Case& c) {
    sim::g_hash_mode = 0;
    sim::Active act;
    if (c.threads[0].size() && c.threads[0][0].a == 0) {
        auto* a = sim::sim_new<lru0_t>((size_t)8);
        for (int64_t i = 0; i < c.params[0]; ++i) a->insert(Obj(i), Obj(5));
        auto* b = sim::sim_new<lru0_t>(*a);
        sim::sim_delete(a);
        kf_use(b);
        sim::sim_delete(b);
    } else {
        MF1 f{ &kf_host };
        auto* a = sim::sim_new<mlru0_t>(f, (size_t)8);
        for (int64_t i = 0; i < c.params[0]; ++i) { Obj k(i); (*a)(k); }
        auto* b = sim::sim_new<mlru0_t>(*a);
        sim::sim_delete(a);
        kf_use(b);
        sim::sim_delete(b);
    }
}
sim::Harness kf_h{ "kf_cachecopy", kf_gen, kf_run, kf_opname, nullptr };
sim::Reg kf_r(&kf_h);
}
