// Harness for the btree containers: random histories over the whole API on three containers
// plus detached nodes, with failing allocations and throwing element constructors, refined
// against an exact model (the ordered sequence of elements).
#pragma once
#include "elem.h"
#include "gtl/btree.hpp"
#include <algorithm>
#include <string>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <tuple>

namespace sim {

enum BtOp : int {
    BO_INSERT_C, BO_INSERT_R, BO_HINT_C, BO_HINT_R, BO_RANGE, BO_IL, BO_EMPLACE, BO_EMPLACE_HINT, BO_TRY, BO_TRY_R, BO_TRY_HINT, BO_INDEX, BO_AT,
    BO_ERASE_KEY, BO_ERASE_IT, BO_ERASE_RANGE, BO_ERASE_IF, BO_ERASE_LOOP, BO_FIND, BO_BOUNDS, BO_HETERO, BO_EXTRACT_KEY, BO_EXTRACT_IT, BO_NODE, BO_NODE_HINT, BO_DROP_NODE,
    BO_MERGE, BO_SWAP, BO_CLEAR, BO_COPY_CTOR, BO_COPY_ASSIGN, BO_MOVE_CTOR, BO_MOVE_ASSIGN, BO_SELF_ASSIGN, BO_COMPARE, BO_RANGE_CTOR, BO_IL_CTOR, BO_FILL, BO_WALK, BO_WRITE, BO_CTOR_RANGE_SORTED, BO_MERGE_X, BO_ITER,
    BO_COUNT_
};
inline const char* bt_opname(int, int c) {
    static const char* n[] = { "insert(const&)", "insert(&&)", "insert(hint,const&)", "insert(hint,&&)", "insert(range)", "insert(init_list)", "emplace", "emplace_hint", "try_emplace", "try_emplace(&&)", "try_emplace(hint)", "operator[]", "at",
        "erase(key)", "erase(it)", "erase(range)", "erase_if", "erase-while-iterating", "find", "lower/upper_bound", "heterogeneous", "extract(key)", "extract(it)", "insert(node)", "insert(hint,node)", "drop node",
        "merge", "swap", "clear", "copy ctor", "copy assign", "move ctor", "move assign", "self assign", "comparison", "range ctor", "init_list ctor", "fill", "walk", "write through iterator", "sorted range ctor", "merge(other type)", "iterator kinds" };
    return c >= 0 && c < BO_COUNT_ ? n[c] : "?";
}

// how a model key becomes a key of the container and back
template<class KT, int DIR = 1> struct BtKey {
    static constexpr int64_t kmax = 1000000;
    static constexpr int dir = 1;
    static KT mk(int64_t k) { return KT(k); }
    static int64_t v(const KT& k) { return val(k); }
};
template<> struct BtKey<int64_t, -1> {   // for a descending order
    static constexpr int64_t kmax = 1000000;
    static constexpr int dir = -1;
    static int64_t mk(int64_t k) { return -k; }
    static int64_t v(int64_t k) { return -k; }
};
template<> struct BtKey<uint8_t, 1> {    // many elements per node
    static constexpr int64_t kmax = 200;
    static constexpr int dir = 1;
    static uint8_t mk(int64_t k) { return (uint8_t)(k + 20); }
    static int64_t v(uint8_t k) { return (int64_t)k - 20; }
};
// the unique counterpart of a multi container and the other way round: merge() accepts both
template<class C> struct BtOther;
template<class K, class V, class L, class A> struct BtOther<gtl::btree_map<K, V, L, A>> { using type = gtl::btree_multimap<K, V, L, A>; };
template<class K, class V, class L, class A> struct BtOther<gtl::btree_multimap<K, V, L, A>> { using type = gtl::btree_map<K, V, L, A>; };
template<class K, class L, class A> struct BtOther<gtl::btree_set<K, L, A>> { using type = gtl::btree_multiset<K, L, A>; };
template<class K, class L, class A> struct BtOther<gtl::btree_multiset<K, L, A>> { using type = gtl::btree_set<K, L, A>; };
template<int DIR> struct BtKey<std::string, DIR> {   // ordered like the number (DIR 1) or in reverse; some too long for the inline buffer
    static constexpr int64_t kmax = 1000000;
    static constexpr int dir = DIR;
    static std::string mk(int64_t k) {
        char b[64]; int n = snprintf(b, sizeof b, "%07lld", (long long)(DIR * k + 500000));
        if (k % 3 == 0) { memset(b + n, 'x', 20); n += 20; }
        return std::string(b, (size_t)n);
    }
    static int64_t v(const std::string& s) { check_range(s.data(), s.size(), false); Ignore g; return s.empty() ? -777777 : DIR * (atoll(s.substr(0, 7).c_str()) - 500000); }
};

template<class C, class KT, bool MAP, bool MULTI, bool TRANSPARENT, bool SALLOC = false, class KTR = BtKey<KT>>
struct SeqBt {
    using value_type = typename C::value_type;
    using init_type  = std::conditional_t<MAP, std::pair<KT, Obj>, KT>;
    using node_type  = typename C::node_type;
    using E = std::pair<int64_t, int64_t>;
    struct Model : std::vector<E> { int dir = 1; void swap(Model& o) { std::vector<E>::swap(o); std::swap(dir, o.dir); } };
    static constexpr bool DIRS = requires(typename C::key_compare k) { k.dir; };   // the comparator has state
    int  dir_of(int i) { if constexpr (DIRS) { Active a; return c[i]->key_comp().dir; } else { (void)i; return 1; } }
    void check_dir(int i) { if constexpr (DIRS) if (int d = dir_of(i); d != m[i].dir) fail("model", "after %s: container %d has comparator %d, should be %d", on(), i, d, m[i].dir); }
    static constexpr int NC = 3;
    C*      c[NC];
    Model   m[NC];
    int64_t K;
    struct Held { std::unique_ptr<node_type> n; int64_t k, v; };
    std::vector<Held> held;
    const Op* cur = nullptr;
    int     al[NC] = {};      // which allocator each container must use (stateful allocators only)
    using AT = std::allocator_traits<typename C::allocator_type>;
    static C* mkc(int id, int dir) { (void)dir; if constexpr (DIRS && SALLOC) return sim_new<C>(typename C::key_compare{ dir }, typename C::allocator_type(id)); else if constexpr (DIRS) return sim_new<C>(typename C::key_compare{ dir }); else if constexpr (SALLOC) return sim_new<C>(typename C::key_compare(), typename C::allocator_type(id)); else { (void)id; return sim_new<C>(); } }
    void check_al(int i) { if constexpr (SALLOC) { int got; { Active a; got = c[i]->get_allocator().id; } if (got != al[i]) fail("allocator", "after %s: container %d uses allocator #%d, should be #%d", on(), i, got, al[i]); } }

    static int64_t kof(const value_type& v) { if constexpr (MAP) return KTR::v(v.first); else return KTR::v(v); }
    static int64_t vof(const value_type& v) { if constexpr (MAP) return val(v.second); else return 1; }
    static int64_t mv(int64_t v) { return MAP ? v : 1; }
    static init_type mk(int64_t k, int64_t v) { if constexpr (MAP) return init_type(KTR::mk(k), Obj(v)); else { (void)v; return KTR::mk(k); } }
    static E kv_of(const init_type& v) { if constexpr (MAP) return E(KTR::v(v.first), val(v.second)); else return E(KTR::v(v), 1); }
    const char* on() { return bt_opname(0, cur->code); }

    static bool kless(const E& a, const E& b) { return a.first < b.first; }
    static bool kmore(const E& a, const E& b) { return a.first > b.first; }
    static size_t lb(const Model& v, int64_t k) { return (size_t)(std::lower_bound(v.begin(), v.end(), E(k, 0), v.dir > 0 ? kless : kmore) - v.begin()); }
    static size_t ub(const Model& v, int64_t k) { return (size_t)(std::upper_bound(v.begin(), v.end(), E(k, 0), v.dir > 0 ? kless : kmore) - v.begin()); }
    static bool   has(const Model& v, int64_t k) { return lb(v, k) != ub(v, k); }
    static void   ins(Model& v, int64_t k, int64_t w) { if (MULTI || !has(v, k)) v.insert(v.begin() + (long)ub(v, k), E(k, w)); }

    void read(int i, Model& out, size_t limit) {
        Active a;
        size_t n = 0;
        for (auto& v : std::as_const(*c[i])) {
            int64_t k = kof(v), w = vof(v);
            Ignore g;
            if (++n > limit) fail("model", "after %s: iteration of container %d does not end (more than %zu elements)", on(), i, limit);
            out.emplace_back(k, w);
        }
    }
    void observe(int i) {
        Model now;
        size_t sz; bool em;
        { Active a; sz = c[i]->size(); em = c[i]->empty(); }
        if (sz != m[i].size()) fail("model", "after %s: size() of container %d is %zu, should be %zu", on(), i, sz, m[i].size());
        if (em != (sz == 0)) fail("model", "after %s: empty() of container %d is %d", on(), i, em);
        read(i, now, sz);
        if (now.size() != sz) fail("model", "after %s: iteration of container %d shows %zu elements, size() is %zu", on(), i, now.size(), sz);
        for (size_t q = 0; q < now.size(); ++q) {
            if (now[q] != m[i][q]) {
                if (q && m[i].dir * now[q].first < m[i].dir * now[q - 1].first) fail("order", "after %s: container %d shows key %lld after key %lld", on(), i, (long long)now[q].first, (long long)now[q - 1].first);
                fail("model", "after %s: container %d shows (%lld,%lld) at position %zu, should be (%lld,%lld)", on(), i, (long long)now[q].first, (long long)now[q].second, q, (long long)m[i][q].first, (long long)m[i][q].second);
            }
        }
    }
    void back(int i) {
        Active a;
        size_t q = m[i].size();
        for (auto it = c[i]->rbegin(); it != c[i]->rend(); ++it) {
            if (q == 0) fail("model", "reverse iteration of container %d shows more than size() elements", i);
            --q;
            if (kof(*it) != m[i][q].first || vof(*it) != m[i][q].second) fail("model", "after %s: reverse iteration of container %d is wrong at position %zu", on(), i, q);
        }
        if (q) fail("model", "reverse iteration of container %d misses %zu elements", i, q);
    }
    void lookup(int i, int64_t k) {
        KT ko(KTR::mk(k));
        Active a;
        const C& x = *c[i];
        const Model& v = m[i];
        size_t l = lb(v, k), u = ub(v, k);
        auto f = x.find(ko);
        if ((f != x.end()) != (l != u)) fail("model", "after %s: find(%lld) on container %d %s", on(), (long long)k, i, l != u ? "misses a present key" : "finds an absent key");
        if (l != u && kof(*f) != k) fail("model", "find(%lld) refers to key %lld", (long long)k, (long long)kof(*f));
        if (x.contains(ko) != (l != u)) fail("model", "contains(%lld) is wrong", (long long)k);
        if (x.count(ko) != u - l) fail("model", "after %s: count(%lld)=%zu, should be %zu", on(), (long long)k, (size_t)x.count(ko), u - l);
        auto chk = [&](auto it, size_t pos, const char* what) {
            if ((it == x.end()) != (pos == v.size())) fail("model", "after %s: %s(%lld) on container %d is%s end()", on(), what, (long long)k, i, it == x.end() ? "" : " not");
            if (pos < v.size() && (kof(*it) != v[pos].first || vof(*it) != v[pos].second)) fail("model", "after %s: %s(%lld) on container %d refers to key %lld, should be %lld", on(), what, (long long)k, i, (long long)kof(*it), (long long)v[pos].first);
        };
        chk(x.lower_bound(ko), l, "lower_bound");
        chk(x.upper_bound(ko), u, "upper_bound");
        auto r = x.equal_range(ko);
        chk(r.first, l, "equal_range.first"); chk(r.second, u, "equal_range.second");
    }
    // after a failed multi-element insertion: everything of lo is still there, nothing beyond hi
    void resync(int i, const Model& lo, const Model& hi) {
        Model now;
        read(i, now, hi.size() + 2);
        now.dir = m[i].dir;
        Model sn = now, sl = lo, sh = hi;
        for (size_t q = 1; q < now.size(); ++q) if (MULTI ? now.dir * now[q].first < now.dir * now[q - 1].first : now.dir * now[q].first <= now.dir * now[q - 1].first) fail("order", "after a failed %s: container %d is out of order", on(), i);
        std::sort(sn.begin(), sn.end()); std::sort(sl.begin(), sl.end()); std::sort(sh.begin(), sh.end());
        if (!std::includes(sn.begin(), sn.end(), sl.begin(), sl.end())) fail("failed-op", "a failed %s lost an element of container %d", on(), i);
        if (!std::includes(sh.begin(), sh.end(), sn.begin(), sn.end())) fail("failed-op", "a failed %s left an unexpected element in container %d", on(), i);
        m[i] = now;
    }
    // valid but unspecified contents: must be consistent; then empty it
    void unspecified(int i) {
        Active a;
        C& x = *c[i];
        size_t n = 0;
        int64_t prev = 0; const int d = dir_of(i);
        for (auto it = x.begin(); it != x.end(); ++it) {
            if (++n > x.size()) fail("model", "after %s: container %d iterates more elements than size()", on(), i);
            int64_t kk = kof(*it); vof(*it);   // fails on an element that was moved from
            if (n > 1 && (MULTI ? d * kk < d * prev : d * kk <= d * prev)) fail("order", "after %s: container %d is out of order", on(), i);
            prev = kk;
        }
        if (n != x.size()) fail("model", "after %s: container %d: size()=%zu, iteration=%zu", on(), i, (size_t)x.size(), n);
        x.clear();
        Ignore g;
        m[i].clear();
        m[i].dir = dir_of(i);
    }

    template<class It> size_t pos_of(C& x, It it) { size_t n = 0; for (auto q = x.begin(); q != it; ++q) if (++n > x.size()) fail("model", "%s returned an iterator outside the container", on()); return n; }
    template<class It> void check_at(C& x, It it, int64_t k) { if (it == x.end()) fail("model", "%s returned end()", on()); if (kof(*it) != k) fail("model", "%s returned an iterator to key %lld instead of %lld", on(), (long long)kof(*it), (long long)k); }
    // bookkeeping of one successful insertion whose resulting iterator is `it`
    template<class It> void inserted(C& x, Model& t, It it, int64_t k, int64_t w, bool hinted) {
        check_at(x, it, k);
        if constexpr (!MULTI) { Ignore g; ins(t, k, w); return; }
        size_t p = pos_of(x, it);
        Ignore g;
        if (p < lb(t, k) || p > ub(t, k)) fail("order", "%s placed key %lld at position %zu, outside its equal range", on(), (long long)k, p);
        if (!hinted && p != ub(t, k)) fail("order", "%s placed key %lld before an older equal element", on(), (long long)k);
        t.insert(t.begin() + (long)p, E(k, w));
    }
    template<class R> void insert_res(C& x, Model& t, const R& r, int64_t k, int64_t w) {
        if constexpr (MULTI) inserted(x, t, r, k, w, false);
        else {
            bool h = has(t, k);
            if (r.second == h) fail("model", "%s returned %d, should be %d", on(), (int)r.second, (int)!h);
            inserted(x, t, r.first, k, w, false);
        }
    }
    template<class R> static bool to_less(const R& r) { if constexpr (std::is_same_v<R, bool>) return r; else return r < 0; }
    auto hint_at(C& x, int64_t n) { auto it = x.begin(); size_t p = x.empty() ? 0 : (size_t)n % (x.size() + 1); while (p--) ++it; return it; }

    void step(const Op& op) {
        cur = &op;
        int i = (int)(op.b & 0xff) % NC, j = (int)((op.b >> 8) & 0xff) % NC;
        int64_t aux = (op.b >> 16) & 0xffff, k = op.a % K, w = op.c;
        C& x = *c[i];
        bool h = has(m[i], k);
        KT ko(KTR::mk(k)), km(KTR::mk(k));
        Obj vo(w), vm(w);
        std::unique_ptr<init_type> pi(new init_type(mk(k, w)));
        std::unique_ptr<value_type> pv(new value_type(mk(k, w)));
        std::unique_ptr<std::vector<init_type>> rng;
        Model t = m[i];
        Model hi;
        if (op.code == BO_RANGE || op.code == BO_IL || op.code == BO_RANGE_CTOR || op.code == BO_IL_CTOR || op.code == BO_CTOR_RANGE_SORTED) {
            rng.reset(new std::vector<init_type>());
            int n = (op.code == BO_IL || op.code == BO_IL_CTOR) ? 3 : (int)(aux % 40);
            rng->reserve((size_t)n);
            if (op.code != BO_RANGE && op.code != BO_IL) hi.clear(); else hi = t;
            for (int q = 0; q < n; ++q) {
                int64_t kk = op.code == BO_CTOR_RANGE_SORTED ? q : (k + q * (1 + aux % 7)) % K;
                rng->push_back(mk(kk, w + q));
                ins(hi, kk, mv(w + q));
            }
        }
        bool threw = false;
        int64_t result = 0;
        C* fresh = nullptr;
        const int from = al[i];
        int fresh_al = 0;
        bool merging = false, unspec_i = false, unspec_j = false, moved_from = false;
        Model nm;   // model of the fresh container
        Model src, left;
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case BO_INSERT_C: insert_res(x, t, x.insert(*pv), k, mv(w)); break;
            case BO_INSERT_R: insert_res(x, t, x.insert(std::move(*pv)), k, mv(w)); break;
            case BO_HINT_C: inserted(x, t, x.insert(hint_at(x, aux), *pv), k, mv(w), true); break;
            case BO_HINT_R: inserted(x, t, x.insert(aux % 3 == 0 ? x.lower_bound(ko) : aux % 3 == 1 ? x.upper_bound(ko) : hint_at(x, aux), std::move(*pv)), k, mv(w), true); break;
            case BO_RANGE: x.insert(rng->begin(), rng->end()); { Ignore g; t = hi; } break;
            case BO_IL: x.insert({ (*rng)[0], (*rng)[1], (*rng)[2] }); { Ignore g; t = hi; } break;
            case BO_EMPLACE: if constexpr (MAP) { if (aux & 1) insert_res(x, t, x.emplace(std::piecewise_construct, std::forward_as_tuple(ko), std::forward_as_tuple(w)), k, mv(w)); else insert_res(x, t, x.emplace(ko, vo), k, mv(w)); } else insert_res(x, t, x.emplace(ko), k, mv(w)); break;
            case BO_EMPLACE_HINT: if constexpr (MAP) inserted(x, t, x.emplace_hint(hint_at(x, aux), KTR::mk(k), w), k, mv(w), true); else inserted(x, t, x.emplace_hint(hint_at(x, aux), KTR::mk(k)), k, mv(w), true); break;
            case BO_TRY: if constexpr (MAP && !MULTI) insert_res(x, t, x.try_emplace(ko, w), k, w); break;
            case BO_TRY_R: if constexpr (MAP && !MULTI) { insert_res(x, t, x.try_emplace(std::move(km), std::move(vm)), k, w); if (h && val(vm) != w) fail("model", "try_emplace on a present key consumed its argument"); } break;
            case BO_TRY_HINT: if constexpr (MAP && !MULTI) { auto hi0 = aux & 1 ? hint_at(x, aux) : x.lower_bound(ko); if (aux & 2) { inserted(x, t, x.try_emplace(hi0, std::move(km), std::move(vm)), k, w, true); if (h && (KTR::v(km) != k || val(vm) != w)) fail("model", "try_emplace(hint) on a present key consumed its argument"); } else inserted(x, t, x.try_emplace(hi0, ko, w), k, w, true); } break;
            case BO_INDEX: if constexpr (MAP && !MULTI) { auto& r = (aux & 1) ? x[ko] : x[std::move(km)]; if (val(r) != (h ? t[lb(t, k)].second : 0)) fail("model", "operator[] refers to %lld", (long long)val(r)); Ignore g; ins(t, k, 0); } break;
            case BO_AT:
                if constexpr (MAP && !MULTI) {
                    bool oor = false;
                    try { int64_t g = (aux & 1) ? val(x.at(ko)) : val(std::as_const(x).at(ko)); if (!h || g != t[lb(t, k)].second) fail("model", "at(%lld) returned %lld", (long long)k, (long long)g); }
                    catch (const std::out_of_range&) { oor = true; }
                    if (oor == h) fail("model", "at(%lld) %s", (long long)k, oor ? "threw for a present key" : "did not throw for an absent key");
                }
                break;
            case BO_ERASE_KEY: { size_t n = x.erase(ko); Ignore g; size_t l = lb(t, k), u = ub(t, k); if (n != u - l) fail("model", "erase(%lld) returned %zu, should be %zu", (long long)k, n, u - l); t.erase(t.begin() + (long)l, t.begin() + (long)u); break; }
            case BO_ERASE_IT:
                if (!t.empty()) {
                    size_t p = (aux & 3) == 0 ? 0 : (aux & 3) == 1 ? t.size() - 1 : (size_t)aux % t.size();
                    auto it = x.begin(); for (size_t q = 0; q < p; ++q) ++it;
                    auto r = (k & 1) ? x.erase(it) : x.erase(typename C::const_iterator(it));
                    { Ignore g; t.erase(t.begin() + (long)p); }
                    if ((r == x.end()) != (p == t.size())) fail("model", "erase(it) returned %s", r == x.end() ? "end()" : "not end()");
                    if (p < t.size() && kof(*r) != t[p].first) fail("model", "erase(it) returned an iterator to key %lld, next is %lld", (long long)kof(*r), (long long)t[p].first);
                }
                break;
            case BO_ERASE_RANGE: {
                size_t p = t.empty() ? 0 : (size_t)k % (t.size() + 1), n = std::min<size_t>(t.size() - p, (size_t)aux % (aux % 5 == 0 ? 200 : 12));
                auto a1 = x.begin(); for (size_t q = 0; q < p; ++q) ++a1;
                auto a2 = a1; for (size_t q = 0; q < n; ++q) ++a2;
                auto r = x.erase(typename C::const_iterator(a1), typename C::const_iterator(a2));
                { Ignore g; t.erase(t.begin() + (long)p, t.begin() + (long)(p + n)); }
                if ((r == x.end()) != (p == t.size())) fail("model", "erase(range) returned %s", r == x.end() ? "end()" : "not end()");
                if (p < t.size() && kof(*r) != t[p].first) fail("model", "erase(range) returned an iterator to key %lld, next is %lld", (long long)kof(*r), (long long)t[p].first);
                break;
            }
            case BO_ERASE_IF: {
                { Ignore g; t.erase(std::remove_if(t.begin(), t.end(), [&](const E& e) { return (e.first + w) % 3 == 0; }), t.end()); }
                erase_if(x, [&](const value_type& v) { return (kof(v) + w) % 3 == 0; });
                break;
            }
            case BO_ERASE_LOOP: {
                size_t vis = 0, n0 = x.size();
                for (auto it = x.begin(); it != x.end();) {
                    if (++vis > n0) fail("model", "erase-while-iterating visits more elements than size()");
                    if ((kof(*it) + w) % 2) it = x.erase(it); else ++it;
                }
                if (vis != n0) fail("model", "erase-while-iterating visited %zu of %zu elements", vis, n0);
                Ignore g; t.erase(std::remove_if(t.begin(), t.end(), [&](const E& e) { return (e.first + w) % 2 != 0; }), t.end());
                break;
            }
            case BO_FIND: { auto it = x.find(ko); if ((it != x.end()) != h) fail("model", "find is wrong"); break; }
            case BO_BOUNDS: {   // the members that return mutable iterators
                size_t l, u; { Ignore g; l = lb(t, k); u = ub(t, k); }
                auto r = x.equal_range(ko);
                if (r.first != x.lower_bound(ko) || r.second != x.upper_bound(ko) || pos_of(x, r.first) != l || pos_of(x, r.second) != u) fail("model", "equal_range(%lld) spans positions %zu to %zu, should be %zu to %zu", (long long)k, pos_of(x, r.first), pos_of(x, r.second), l, u);
                auto it = x.find(ko);
                if (h ? pos_of(x, it) < l || pos_of(x, it) >= u : it != x.end()) fail("model", "find(%lld) refers to another element", (long long)k);
                break;
            }
            case BO_HETERO:
                if constexpr (TRANSPARENT) {
                    switch (aux % 8) {
                    case 0: if (x.contains(k) != h) fail("model", "heterogeneous contains"); break;
                    case 1: if (x.count(k) != ub(t, k) - lb(t, k)) fail("model", "heterogeneous count"); break;
                    case 2: { size_t n = x.erase(k); Ignore g; size_t l = lb(t, k), u = ub(t, k); if (n != u - l) fail("model", "heterogeneous erase"); t.erase(t.begin() + (long)l, t.begin() + (long)u); break; }
                    case 3: { auto it = x.lower_bound(k); size_t l = lb(t, k); if ((it == x.end()) != (l == t.size()) || (l < t.size() && kof(*it) != t[l].first)) fail("model", "heterogeneous lower_bound"); break; }
                    case 4: { auto it = x.upper_bound(k); size_t l = ub(t, k); if ((it == x.end()) != (l == t.size()) || (l < t.size() && kof(*it) != t[l].first)) fail("model", "heterogeneous upper_bound"); break; }
                    case 5: { auto r = x.equal_range(k); if (pos_of(x, r.first) != lb(t, k) || pos_of(x, r.second) != ub(t, k)) fail("model", "heterogeneous equal_range"); break; }
                    case 6: { auto it = x.find(k); if ((it != x.end()) != h || (h && kof(*it) != k)) fail("model", "heterogeneous find"); break; }
                    case 7:
                        if constexpr (MAP && !MULTI) {
                            bool oor = false;
                            try { int64_t g = (aux & 8) ? val(x.at(k)) : val(std::as_const(x).at(k)); if (!h || g != t[lb(t, k)].second) fail("model", "heterogeneous at"); }
                            catch (const std::out_of_range&) { oor = true; }
                            if (oor == h) fail("model", "heterogeneous at");
                        }
                        break;
                    }
                }
                break;
            case BO_EXTRACT_KEY: case BO_EXTRACT_IT: {
                if (held.size() >= 3 || (op.code == BO_EXTRACT_IT && t.empty())) break;
                size_t p; int64_t kk = k, vv = 0;
                node_type n;
                if (op.code == BO_EXTRACT_KEY) {
                    // which of several equal elements find() picks is unspecified
                    auto it = x.find(ko);
                    p = h ? pos_of(x, it) : 0;
                    if constexpr (TRANSPARENT) { if (aux & 1) n = x.extract(k); else n = x.extract(ko); } else n = x.extract(ko);
                    if (n.empty() == h) fail("model", "extract(key) %s", h ? "returned no node" : "returned a node for an absent key");
                    if (!h) break;
                } else {
                    p = (size_t)aux % t.size();
                    auto it = x.begin(); for (size_t q = 0; q < p; ++q) ++it;
                    n = (k & 1) ? x.extract(it) : x.extract(typename C::const_iterator(it));
                    if (n.empty()) fail("model", "extract(it) returned no node");
                }
                kk = t[p].first; vv = t[p].second;
                int64_t nk, nv;
                if constexpr (MAP) { nk = KTR::v(n.key()); nv = val(n.mapped()); } else { nk = KTR::v(n.value()); nv = 1; }
                if (nk != kk || nv != vv) fail("model", "extracted node holds (%lld,%lld), should be (%lld,%lld)", (long long)nk, (long long)nv, (long long)kk, (long long)vv);
                Ignore g;
                t.erase(t.begin() + (long)p);
                Held hd; hd.n.reset(new node_type()); *hd.n = std::move(n); hd.k = kk; hd.v = vv;
                held.push_back(std::move(hd));
                break;
            }
            case BO_NODE: case BO_NODE_HINT: {
                if (held.empty()) {
                    node_type e;
                    if (op.code == BO_NODE_HINT) { if (x.insert(hint_at(x, aux), std::move(e)) != x.end()) fail("model", "insert of an empty node returned an element"); break; }
                    if constexpr (MULTI) { if (x.insert(std::move(e)) != x.end()) fail("model", "insert of an empty node returned an element"); }
                    else { auto r = x.insert(std::move(e)); if (r.inserted || r.position != x.end() || !r.node.empty()) fail("model", "insert of an empty node reported an insertion"); }
                    break;
                }
                Held& hd = held.back();
                bool hh = has(t, hd.k);
                bool gone = true;
                if (op.code == BO_NODE) {
                    if constexpr (MULTI) { auto it = x.insert(std::move(*hd.n)); inserted(x, t, it, hd.k, hd.v, false); }
                    else {
                        auto r = x.insert(std::move(*hd.n));
                        if (r.inserted == hh) fail("model", "insert(node) returned inserted=%d", (int)r.inserted);
                        if (r.inserted == !r.node.empty()) fail("model", "insert(node): returned node is %s", r.node.empty() ? "empty although nothing was inserted" : "not empty although it was inserted");
                        inserted(x, t, r.position, hd.k, hd.v, false);
                        if (!r.inserted) { *hd.n = std::move(r.node); gone = false; }
                    }
                } else {
                    auto it = x.insert(hint_at(x, aux), std::move(*hd.n));
                    inserted(x, t, it, hd.k, hd.v, true);
                    if ((MULTI || !hh) != hd.n->empty()) fail("model", "insert(hint,node): the node is %s", hd.n->empty() ? "empty although nothing was inserted" : "not empty although it was inserted");
                    gone = MULTI || !hh;
                }
                if (gone) { Ignore g; held.pop_back(); }
                break;
            }
            case BO_DROP_NODE: if (!held.empty()) { Ignore g; held.pop_back(); } break;
            case BO_MERGE: {
                if (i == j) { if (aux & 1) x.merge(x); else x.merge(std::move(x)); break; }   // every element is already there
                if (aux & 1) x.merge(*c[j]); else x.merge(std::move(*c[j]));
                Ignore g;
                Model left; left.dir = m[j].dir;
                for (auto& e : m[j]) { if (!MULTI && has(t, e.first)) left.push_back(e); else ins(t, e.first, e.second); }
                m[j] = left;
                break;
            }
            case BO_SWAP: { if (SALLOC && !AT::propagate_on_container_swap::value && al[i] != al[j]) break; if (SALLOC && i != j) std::swap(al[i], al[j]); if (aux & 1) x.swap(*c[j]); else if (i != j) swap(x, *c[j]); if (i != j) { Ignore g; t.swap(m[j]); } break; }
            case BO_CLEAR: x.clear(); { Ignore g; t.clear(); } break;
            case BO_COPY_CTOR: fresh = sim_new<C>(std::as_const(x)); { Ignore g; nm = t; } break;
            case BO_COPY_ASSIGN: { if (i != j) unspec_j = true; auto& r = (*c[j] = std::as_const(x)); if (&r != c[j]) fail("model", "operator= returned another object"); unspec_j = false; if (i != j) { Ignore g; m[j] = t; if (AT::propagate_on_container_copy_assignment::value) al[j] = al[i]; } break; }
            case BO_MOVE_CTOR: fresh = sim_new<C>(std::move(x)); { Ignore g; nm = t; moved_from = true; } break;
            case BO_MOVE_ASSIGN: { if (i == j) break; if (SALLOC && !AT::propagate_on_container_move_assignment::value && al[i] != al[j]) unspec_i = unspec_j = true; auto& r = (*c[j] = std::move(x)); if (&r != c[j]) fail("model", "operator= returned another object"); Ignore g; unspec_j = false; m[j] = t; moved_from = true; if (AT::propagate_on_container_move_assignment::value) al[j] = al[i]; break; }
            case BO_SELF_ASSIGN: { C& y = x; x = y; break; }
            case BO_COMPARE: {
                bool eq, lt; { Ignore g; eq = m[i] == m[j]; lt = std::lexicographical_compare(m[i].begin(), m[i].end(), m[j].begin(), m[j].end(), [](const E& a, const E& b) { return KTR::dir * a.first != KTR::dir * b.first ? KTR::dir * a.first < KTR::dir * b.first : a.second < b.second; }); }
                C& y = *c[j];
                if ((x == y) != eq || (x != y) == eq) fail("model", "operator== / != is wrong");
                if ((x < y) != lt || (x >= y) == lt) fail("model", "operator< / >= is wrong");
                if ((x <= y) != (lt || eq) || (x > y) == (lt || eq)) fail("model", "operator<= / > is wrong");
                break;
            }
            case BO_RANGE_CTOR: case BO_CTOR_RANGE_SORTED:
                if (aux & 64) fresh = sim_new<C>(rng->begin(), rng->end(), x.key_comp(), x.get_allocator());
                else fresh = sim_new<C>(rng->begin(), rng->end());
                { Ignore g; nm = hi; if (aux & 64) { Model q; q.dir = m[i].dir; for (auto& e : *rng) ins(q, kv_of(e).first, kv_of(e).second); nm = q; } fresh_al = (aux & 64) ? from : 0; }
                break;
            case BO_IL_CTOR:
                if (aux & 64) fresh = sim_new<C>(std::initializer_list<init_type>{ (*rng)[0], (*rng)[1], (*rng)[2] }, x.key_comp(), x.get_allocator());
                else fresh = sim_new<C>(std::initializer_list<init_type>{ (*rng)[0], (*rng)[1], (*rng)[2] });
                { Ignore g; nm = hi; if (aux & 64) { Model q; q.dir = m[i].dir; for (auto& e : *rng) ins(q, kv_of(e).first, kv_of(e).second); nm = q; } fresh_al = (aux & 64) ? from : 0; }
                break;
            case BO_FILL:
                for (int64_t q = 0; q < aux % 64; ++q) {
                    int64_t kk = (aux / 64) % 3 == 0 ? (k + q) % K : (aux / 64) % 3 == 1 ? (k + K * 64 - q) % K : (k + q * 17) % K;
                    x.insert(mk(kk, w + q));
                    Ignore g; ins(t, kk, mv(w + q));
                }
                break;
            case BO_WALK: {   // ++ and -- anywhere
                auto it = hint_at(x, aux);
                size_t p = t.empty() ? 0 : (size_t)aux % (t.size() + 1);
                for (int64_t q = 0; q < 24; ++q) {
                    if (((w >> (q % 20)) ^ q) & 1) {
                        if (p < t.size()) { if (q & 4) { auto was = it++; auto nx = was; if (kof(*was) != t[p].first || ++nx != it) fail("model", "it++ is wrong"); } else ++it; ++p; }
                    } else if (p > 0) { if (q & 4) { auto was = it--; auto nx = it; if ((was == x.end()) != (p == t.size()) || ++nx != was) fail("model", "it-- is wrong"); } else --it; --p; }
                    if ((it == x.end()) != (p == t.size())) fail("model", "iterator walk reached end() at the wrong place");
                    if (p < t.size() && kof(*it) != t[p].first) fail("model", "iterator walk shows key %lld, should be %lld", (long long)kof(*it), (long long)t[p].first);
                }
                break;
            }
            case BO_MERGE_X: {   // from the multi (unique) counterpart; nothing is lost between the two
                using O = typename BtOther<C>::type;
                src.dir = left.dir = t.dir;
                O o(x.key_comp(), x.get_allocator());
                {
                    int n = (int)(aux % 50);
                    for (int q = 0; q < n; ++q) {
                        int64_t kk = (k + q * (1 + aux % 5)) % K;
                        o.insert(mk(kk, w + q));
                        Ignore g;
                        if (MULTI && has(src, kk)) continue;
                        src.insert(src.begin() + (long)ub(src, kk), E(kk, mv(w + q)));
                    }
                }
                merging = true;
                if (aux & 64) x.merge(o); else x.merge(std::move(o));
                { Ignore g; for (auto& e : src) { if (!MULTI && has(t, e.first)) left.push_back(e); else ins(t, e.first, e.second); } }
                size_t q = 0;
                for (auto& v : o) { if (q >= left.size() || kof(v) != left[q].first || vof(v) != left[q].second) fail("model", "merge(other type) left key %lld in the source", (long long)kof(v)); ++q; }
                if (q != left.size() || o.size() != q) fail("model", "merge(other type) left %zu elements in the source, should be %zu", q, left.size());
                break;
            }
            case BO_ITER: {   // every kind of iterator shows the same sequence; the comparison objects agree with it
                size_t q = 0;
                const C& y = x;
                for (auto it = x.cbegin(); it != x.cend(); it++, ++q) if (q >= t.size() || kof(*it) != t[q].first) fail("model", "cbegin()..cend() is wrong at position %zu", q);
                if (q != t.size()) fail("model", "cbegin()..cend() shows %zu elements", q);
                for (auto it = y.crbegin(); it != y.crend(); it++) { if (!q || kof(*it) != t[q - 1].first) fail("model", "crbegin()..crend() is wrong"); --q; }
                if (q) fail("model", "crbegin()..crend() misses %zu elements", q);
                for (auto it = y.rbegin(); it != y.rend(); ++it) { if (q >= t.size() || kof(*it) != t[t.size() - 1 - q].first) fail("model", "rbegin()..rend() const is wrong"); ++q; }
                if (t.size() > 1) {
                    size_t p = (size_t)aux % (t.size() - 1);
                    auto a1 = x.begin(); for (size_t s = 0; s < p; ++s) ++a1;
                    typename C::const_iterator c1 = a1;
                    auto a2 = a1; ++a2;
                    if (c1 != a1 || c1 == a2) fail("model", "iterator and const_iterator to one element compare unequal");
                    bool eqk = t[p].first == t[p + 1].first;
                    bool vc = to_less(x.value_comp()(*a1, *a2)), vr = to_less(x.value_comp()(*a2, *a1));
                    if (vc == eqk || vr) fail("model", "value_comp() contradicts the order of the elements");
                }
                break;
            }
            case BO_WRITE: if constexpr (MAP) if (!t.empty()) { size_t p = (size_t)aux % t.size(); auto it = x.begin(); for (size_t q = 0; q < p; ++q) ++it; it->second.set(w); Ignore g; t[p].second = w; } break;
            }
        } catch (const Injected&) { threw = true; }
        catch (const std::bad_alloc&) { if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", on()); threw = true; }
        disarm();
        if constexpr (SALLOC) if (threw) {
            // the allocator of a container whose assignment failed is one of the two
            if (op.code == BO_COPY_ASSIGN || op.code == BO_MOVE_ASSIGN) { int got; { Active a; got = c[j]->get_allocator().id; } if (got == al[i]) al[j] = got; }
        }
        if (threw) {
            count("failed_ops");
            if (op.code == BO_MOVE_ASSIGN && unspec_j) {} else
            switch (op.code) {
            case BO_ERASE_KEY: case BO_ERASE_IT: case BO_ERASE_RANGE: case BO_ERASE_LOOP: case BO_ERASE_IF: case BO_FIND: case BO_BOUNDS: case BO_HETERO: case BO_EXTRACT_KEY: case BO_EXTRACT_IT: case BO_DROP_NODE: case BO_SWAP: case BO_CLEAR:
            case BO_MOVE_CTOR: case BO_MOVE_ASSIGN: case BO_COMPARE: case BO_WALK: case BO_WRITE: case BO_SELF_ASSIGN: case BO_ITER:
                fail("failed-op", "%s failed although it must not", on());
            case BO_RANGE: case BO_IL: resync(i, m[i], hi); break;
            case BO_FILL: { Model lo = m[i]; for (int64_t q = 0; q < aux % 64; ++q) { int64_t kk = (aux / 64) % 3 == 0 ? (k + q) % K : (aux / 64) % 3 == 1 ? (k + K * 64 - q) % K : (k + q * 17) % K; ins(t, kk, mv(w + q)); } hi = lo; for (auto& e : t) hi.push_back(e); std::sort(hi.begin(), hi.end()); resync(i, lo, t); break; }
            case BO_MERGE_X:
                if (!merging) break;
                if constexpr (MULTI) { Model lo = m[i], hh = m[i]; hh.insert(hh.end(), src.begin(), src.end()); resync(i, lo, hh); }
                else { Model lo = m[i], hh = m[i]; for (int q = 0; q < (int)(aux % 50); ++q) { int64_t kk = (k + q * (1 + aux % 5)) % K; if (!has(lo, kk)) hh.insert(hh.begin() + (long)ub(hh, kk), E(kk, mv(w + q))); } resync(i, lo, hh); }
                break;
            case BO_MERGE:
                if (i == j) { fail("failed-op", "merge with itself failed"); }
                if constexpr (MULTI) {   // every element is still in exactly one of the two
                    Model all = m[i], hh = m[i], left = m[j];
                    hh.insert(hh.end(), m[j].begin(), m[j].end());
                    resync(i, all, hh);
                    for (auto& e : m[i]) { auto q = std::find(all.begin(), all.end(), e); if (q != all.end()) { all.erase(q); continue; } q = std::find(left.begin(), left.end(), e); if (q == left.end()) fail("failed-op", "a failed %s left an unexpected element in container %d", on(), i); left.erase(q); }
                    m[j] = left;
                } else {
                    Model all = m[i], src = m[j], hh = m[i];
                    for (auto& e : src) ins(hh, e.first, e.second);
                    resync(i, all, hh);
                    Model left; left.dir = m[j].dir; for (auto& e : src) if (has(all, e.first) || !has(m[i], e.first)) left.push_back(e);
                    m[j] = left;
                }
                break;
            default: break;   // strong guarantee: nothing changed
            }
        } else {
            m[i] = t;
            if (moved_from) { size_t n; bool e; { Active a; n = x.size(); e = x.empty() && x.begin() == x.end(); } if (n || !e) fail("model", "after %s the moved-from container is not empty (%zu elements)", on(), n); unspec_i = true; }
        }
        if constexpr (SALLOC) if (moved_from) { Active a; al[i] = x.get_allocator().id; }
        if (unspec_i) unspecified(i);
        if (unspec_j) unspecified(j);
        if (fresh) {
            { Active a; sim_delete(c[j]); }
            c[j] = fresh; m[j] = nm;
            al[j] = op.code == BO_COPY_CTOR ? from ^ 1 : op.code == BO_MOVE_CTOR ? from : fresh_al;
        }
        check_al(i); check_al(j); check_dir(i); check_dir(j);
        trace_op(1, op.code, result * 31 + (int64_t)m[i].size() * 7 + threw);
        for (int q = 0; q < NC; ++q) if (q == i || q == j || (w & 3) == 0) observe(q);
        if ((w & 3) == 1) back(i);
        lookup(i, k); lookup(j, (k * 5 + 1) % K); lookup(i, K + 7); lookup(i, -1);
    }

    void run(const Case& cs) {
        K = std::min<int64_t>(cs.params[0], KTR::kmax);
        held.clear();
        for (int i = 0; i < NC; ++i) { m[i].clear(); m[i].dir = 1; al[i] = SALLOC ? (int)((cs.params[1] >> (2 * i)) & 3) : 0; Active a; m[i].dir = DIRS && ((cs.params[1] >> i) & 1) ? -1 : 1; c[i] = mkc(al[i], m[i].dir); }
        for (auto& o : cs.threads[0]) step(o);
        Op fin; cur = &fin; fin.code = BO_WALK;
        for (int q = 0; q < NC; ++q) { observe(q); back(q); }
        held.clear();
        for (int i = 0; i < NC; ++i) { Active a; sim_delete(c[i]); }
        for (int i = 0; i < NC; ++i) m[i].clear();
    }
};

inline void bt_gen(Rng& r, Case& c, int which) {
    int w[BO_COUNT_]; for (int& x : w) x = 2;
    w[BO_FILL] = 8; w[BO_ERASE_IT] = 6; w[BO_ERASE_KEY] = 5; w[BO_ERASE_RANGE] = 3; w[BO_CLEAR] = 1; w[BO_RANGE] = 4;
    int fp = 5;
    if (which == 1) { fp = 50; for (int i = 0; i <= BO_INDEX; ++i) w[i] = 6; w[BO_COPY_CTOR] = 5; w[BO_COPY_ASSIGN] = 5; w[BO_NODE] = 5; w[BO_EXTRACT_IT] = 5; }
    if (which == 2) { fp = 20; for (int i = BO_EXTRACT_KEY; i <= BO_SELF_ASSIGN; ++i) w[i] = 8; w[BO_MERGE_X] = 8; w[BO_CLEAR] = 2; }
    int64_t K = r.chance(1, 3) ? r.range(150, 600) : r.chance(1, 2) ? r.range(20, 80) : r.range(1, 12);
    c.params = { K, (int64_t)r.below(64) };
    c.threads.resize(1);
    int n = r.chance(1, 3) ? (int)r.range(16, 50) : (int)r.range(2, 14);
    int tot = 0; for (int x : w) tot += x;
    auto pick = [&]() { int x = (int)r.below((uint64_t)tot); for (int i = 0; i < BO_COUNT_; ++i) { if (x < w[i]) return i; x -= w[i]; } return 0; };
    std::vector<int> pool;
    if (r.chance(1, 2)) { int np = (int)r.range(2, 7); for (int i = 0; i < np; ++i) pool.push_back(pick()); pool.push_back(BO_FILL); }
    int nc = (int)r.range(1, 3);
    int pre = r.chance(2, 3) ? (int)r.range(1, 5) : 0;
    for (int i = 0; i < n + pre; ++i) {
        Op o;
        o.code = i < pre ? (int)BO_FILL : pool.empty() || r.chance(1, 4) ? pick() : pool[r.below(pool.size())];
        o.a = (int64_t)r.below((uint64_t)K);
        o.b = (int64_t)(i < pre ? 0 : r.below((uint64_t)nc)) | ((int64_t)r.below((uint64_t)nc) << 8) | ((int64_t)r.below(65536) << 16);
        o.c = (int64_t)(i + 1) * 1000 + (int64_t)r.below(100);
        if (i >= pre && r.chance(fp, 100)) { o.fk = r.chance(1, 2) ? F_ALLOC : F_CTOR; o.fn = (int)r.range(1, r.chance(1, 3) ? 12 : 3); }
        c.threads[0].push_back(o);
    }
}
} // namespace sim

#define SEQBTX(NAME, TYPE, KT, MAP, MULTI, TRANSP, SALLOC, KTR)                                                            \
    using NAME##_t = sim::SeqBt<TYPE, KT, MAP, MULTI, TRANSP, SALLOC, KTR>;                                                \
    static void NAME##_run(const sim::Case& c) { static NAME##_t* p = new NAME##_t(); p->run(c); }                         \
    template<int W> static void NAME##_gen(sim::Rng& r, sim::Case& c) { sim::bt_gen(r, c, W); }                             \
    static sim::Harness NAME##_h0{ "bt0_" #NAME, NAME##_gen<0>, NAME##_run, sim::bt_opname, nullptr };                      \
    static sim::Harness NAME##_h1{ "bt1_" #NAME, NAME##_gen<1>, NAME##_run, sim::bt_opname, nullptr };                      \
    static sim::Harness NAME##_h2{ "bt2_" #NAME, NAME##_gen<2>, NAME##_run, sim::bt_opname, nullptr };                      \
    static sim::Reg NAME##_r0(&NAME##_h0), NAME##_r1(&NAME##_h1), NAME##_r2(&NAME##_h2);
#define SEQBT(NAME, TYPE, KT, MAP, MULTI, TRANSP) SEQBTX(NAME, TYPE, KT, MAP, MULTI, TRANSP, false, sim::BtKey<KT>)
