// Harness for hash containers used from one thread: random histories over the whole API on
// three containers plus detached nodes, with failing allocations, throwing element
// constructors and throwing callbacks at arbitrary points, refined against std::map models.
#pragma once
#include "elem.h"
#include "gtl/phmap.hpp"
#include <iterator>
#include <map>
#include <memory>
#include <stdexcept>
#include <tuple>

namespace sim {

enum HashOp : int {
    HO_INSERT_C, HO_INSERT_R, HO_INSERT_INIT, HO_INSERT_HINT, HO_INSERT_RANGE, HO_INSERT_IL, HO_EMPLACE, HO_EMPLACE_PIECE, HO_EMPLACE_HINT, HO_EMPLACE_HASH,
    HO_TRY_EMPLACE, HO_TRY_EMPLACE_R, HO_TRY_EMPLACE_HINT, HO_IOA, HO_IOA_R, HO_IOA_HINT, HO_INDEX, HO_AT, HO_LAZY, HO_LAZY_HASH, HO_TOGGLE,
    HO_ERASE_KEY, HO_ERASE_IT, HO_ERASE_RANGE, HO_ERASE_IF, HO_ERASE_LOOP, HO_FIND, HO_CONTAINS, HO_COUNT, HO_EQUAL_RANGE, HO_HETERO,
    HO_EXTRACT_KEY, HO_EXTRACT_IT, HO_INSERT_NODE, HO_INSERT_NODE_HINT, HO_DROP_NODE, HO_MERGE, HO_SWAP, HO_CLEAR, HO_REHASH, HO_REHASH0, HO_RESERVE, HO_RESERVE_FILL,
    HO_COPY_CTOR, HO_COPY_ASSIGN, HO_MOVE_CTOR, HO_MOVE_ASSIGN, HO_SELF_ASSIGN, HO_EQ, HO_RANGE_CTOR, HO_IL_CTOR, HO_ALLOC_COPY, HO_ALLOC_MOVE, HO_ASSIGN_IL, HO_STATS,
    HO_FILL, HO_CHURN, HO_TOMB, HO_WRITE_REF, HO_EMPLACE_CONV, HO_EMPLACE_ND, HO_ITERATE,
    HO_COUNT_
};
inline const char* hash_opname(int, int c) {
    static const char* n[] = { "insert(const&)", "insert(&&)", "insert(init_type&&)", "insert(hint)", "insert(range)", "insert(init_list)", "emplace", "emplace(piecewise)", "emplace_hint", "emplace_with_hash",
        "try_emplace", "try_emplace(&&)", "try_emplace(hint)", "insert_or_assign", "insert_or_assign(&&)", "insert_or_assign(hint)", "operator[]", "at", "lazy_emplace", "lazy_emplace_with_hash", "emplace_single",
        "erase(key)", "erase(it)", "erase(range)", "erase_if", "erase-while-iterating", "find", "contains", "count", "equal_range", "heterogeneous",
        "extract(key)", "extract(it)", "insert(node)", "insert(hint,node)", "drop node", "merge", "swap", "clear", "rehash(n)", "rehash(0)", "reserve", "reserve+fill",
        "copy ctor", "copy assign", "move ctor", "move assign", "self assign", "operator==", "range ctor", "init_list ctor", "copy ctor(alloc)", "move ctor(alloc)", "assign init_list", "stats",
        "fill", "churn", "fill to the limit and empty", "write through reference", "emplace(convertible)", "emplace(key parts)", "iterate" };
    return c >= 0 && c < HO_COUNT_ ? n[c] : "?";
}

template<class C, bool MAP, bool NODE, bool PARALLEL, bool TRANSPARENT, bool SALLOC>
struct SeqHash {
    using value_type = typename C::value_type;
    using init_type  = typename std::conditional_t<MAP, std::pair<Obj, Obj>, Obj>;
    using node_type  = typename C::node_type;
    using Model      = std::map<int64_t, int64_t>;
    static constexpr int NC = 3;
    C*        c[NC];
    Model     m[NC];
    std::map<int64_t, const void*> addr[NC];   // where each element lives
    std::map<int64_t, const void*> tomb_at;
    bool      stable_next[NC];                 // references must survive the op just run
    size_t    room[NC];                        // insertions still covered by a reserve() on an erase-free container (flat)
    int64_t   K, scale = 1;
    struct Held { std::unique_ptr<node_type> n; int64_t k, v; int al; const void* p; };
    std::vector<Held> held;
    int       al[NC];
    const Op* cur = nullptr;
    int       nal = 0;   // next fresh allocator id

    static int64_t kof(const value_type& v) { if constexpr (MAP) return val(v.first); else return val(v); }
    static int64_t vof(const value_type& v) { if constexpr (MAP) return val(v.second); else return 1; }
    int64_t mv(int64_t v) const { return MAP ? v : 1; }
    static init_type mk(int64_t k, int64_t v) { if constexpr (MAP) return init_type(Obj(k), Obj(v)); else { (void)v; return Obj(k); } }
    static const void* adr(const value_type& v) { return &v; }

    static constexpr bool SEEDS = requires(typename C::hasher h) { h.seed; };   // the hash and equality functions have state
    int  hs[NC] = {};
    static auto mkhash(int s) { if constexpr (SEEDS) return typename C::hasher{ s }; else { (void)s; return typename C::hasher(); } }
    static auto mkeq(int s) { if constexpr (SEEDS) return typename C::key_equal{ s }; else { (void)s; return typename C::key_equal(); } }
    int  seed_of(int i) { if constexpr (SEEDS) { Active a; return c[i]->hash_function().seed; } else { (void)i; return 0; } }
    void check_seed(int i) {
        if constexpr (SEEDS) {
            int h, e; { Active a; h = c[i]->hash_function().seed; e = c[i]->key_eq().seed; }
            if (h != hs[i] || e != hs[i]) fail("model", "after %s: container %d has hash function #%d and equality #%d, should be #%d", hash_opname(0, cur->code), i, h, e, hs[i]);
        } else (void)i;
    }
    auto mkalloc(int id) { if constexpr (SALLOC) return typename C::allocator_type(id); else { (void)id; return typename C::allocator_type(); } }
    int  alid(C& x) { if constexpr (SALLOC) return x.get_allocator().id; else { (void)x; return 0; } }

    // contents of container i as it shows them
    void observe(int i, bool full) {
        Active a;
        C& x = *c[i];
        size_t n = 0, sz = x.size();
        if (x.empty() != (sz == 0)) fail("model", "empty()=%d but size()=%zu", (int)x.empty(), sz);
        if (sz != m[i].size()) fail("model", "after %s: size() of container %d is %zu, should be %zu", hash_opname(0, cur->code), i, sz, m[i].size());
        if (x.capacity() < sz) fail("model", "capacity() %zu smaller than size() %zu", (size_t)x.capacity(), sz);
        if (full) {
            std::map<int64_t, const void*>* seen;
            { Ignore g; seen = new std::map<int64_t, const void*>(); }
            for (auto& v : std::as_const(x)) {
                int64_t k = kof(v), w = vof(v);
                const void* p = adr(v);
                Ignore g;
                if (++n > sz) fail("model", "after %s: iteration of container %d shows more than size() elements", hash_opname(0, cur->code), i);
                auto it = m[i].find(k);
                if (it == m[i].end()) fail("model", "after %s: container %d shows key %lld it should not hold", hash_opname(0, cur->code), i, (long long)k);
                if (it->second != w) fail("model", "after %s: container %d maps key %lld to %lld, should be %lld", hash_opname(0, cur->code), i, (long long)k, (long long)w, (long long)it->second);
                if (!seen->emplace(k, p).second) fail("model", "after %s: container %d shows key %lld twice", hash_opname(0, cur->code), i, (long long)k);
            }
            Ignore g;
            if (n != sz) fail("model", "after %s: iteration of container %d shows %zu elements, size() is %zu", hash_opname(0, cur->code), i, n, sz);
            if (NODE || stable_next[i])
                for (auto& p : *seen) {
                    auto it = addr[i].find(p.first);
                    if (it != addr[i].end() && it->second != p.second)
                        fail("stability", "%s moved the element with key %lld of container %d, references to it must stay valid", hash_opname(0, cur->code), (long long)p.first, i);
                }
            addr[i].swap(*seen);
            delete seen;
        }
    }
    void lookup(int i, int64_t k) {
        bool has = m[i].count(k) != 0;
        Obj ko(k);
        Active a;
        C& x = *c[i];
        bool f = x.contains(ko);
        if (f != has) fail("model", "after %s: contains(%lld)=%d on container %d, should be %d", hash_opname(0, cur->code), (long long)k, f, i, has);
        auto it = x.find(ko);
        if ((it != x.end()) != has) fail("model", "after %s: find(%lld) %s", hash_opname(0, cur->code), (long long)k, has ? "misses a present key" : "finds an absent key");
        if (has && (kof(*it) != k || vof(*it) != m[i][k])) fail("model", "find(%lld) refers to (%lld,%lld)", (long long)k, (long long)kof(*it), (long long)vof(*it));
    }
    // after a failed multi-element operation: contents must lie between lo and hi
    void resync(int i, const Model& lo, const Model& hi) {
        Model now;
        {
            Active a;
            size_t n = 0;
            for (auto& v : std::as_const(*c[i])) {
                int64_t k = kof(v), w = vof(v);
                Ignore g;
                if (++n > hi.size() + 4) fail("model", "iteration does not end after a failed %s", hash_opname(0, cur->code));
                if (!now.emplace(k, w).second) fail("model", "key %lld twice after a failed %s", (long long)k, hash_opname(0, cur->code));
            }
        }
        for (auto& p : lo) if (!now.count(p.first) || now[p.first] != p.second) fail("failed-op", "a failed %s lost or changed key %lld", hash_opname(0, cur->code), (long long)p.first);
        for (auto& p : now) { auto it = hi.find(p.first); if (it == hi.end() || it->second != p.second) fail("failed-op", "a failed %s left unexpected key %lld", hash_opname(0, cur->code), (long long)p.first); }
        m[i] = now;
    }

    void expect(bool got, bool want, const char* what) {
        if (got != want) fail("model", "%s returned %d for %s, should be %d", hash_opname(0, cur->code), got, what, want);
    }
    template<class It> void check_it(C& x, It it, int i, int64_t k) {
        if (it == x.end()) fail("model", "%s returned end()", hash_opname(0, cur->code));
        if (kof(*it) != k) fail("model", "%s returned an iterator to key %lld instead of %lld", hash_opname(0, cur->code), (long long)kof(*it), (long long)k);
        (void)i;
    }

    void step(const Op& op) {
        cur = &op;
        int i = (int)(op.b & 0xff) % NC, j = (int)((op.b >> 8) & 0xff) % NC;
        int64_t aux = (op.b >> 16) & 0xffff, k = op.a, w = op.c;
        C& x = *c[i];
        Model& md = m[i];
        bool has = md.count(k) != 0;
        for (int q = 0; q < NC; ++q) stable_next[q] = true;   // ops below clear it where references may move
        bool ins_like = false;      // inserts at most one element: flat references survive if room is reserved
        size_t before = md.size();
        // arguments, built without faults
        Obj ko(k), vo(w), km(k), vm(w);
        std::unique_ptr<init_type> pi(new init_type(mk(k, w)));
        std::unique_ptr<value_type> pv(new value_type(mk(k, w)));
        std::unique_ptr<std::vector<init_type>> rng;
        if (op.code == HO_INSERT_RANGE || op.code == HO_INSERT_IL || op.code == HO_RANGE_CTOR || op.code == HO_IL_CTOR || op.code == HO_ASSIGN_IL) {
            rng.reset(new std::vector<init_type>());
            int n = (op.code == HO_INSERT_RANGE || op.code == HO_RANGE_CTOR) ? (int)(aux % 24) : 3;
            rng->reserve((size_t)n);
            for (int q = 0; q < n; ++q) rng->push_back(mk((k + q * 3) % K, w + q));
        }
        Model target = md;   // for multi-element ops
        if (rng) { if (op.code != HO_INSERT_RANGE && op.code != HO_INSERT_IL) target.clear(); for (int q = 0; q < (int)rng->size(); ++q) target.emplace((k + q * 3) % K, mv(w + q)); }
        size_t h; { Active a; h = x.hash(ko); }
        bool   threw = false;
        int64_t result = 0;
        C*     fresh = nullptr;
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case HO_INSERT_C: { ins_like = true; auto r = x.insert(*pv); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); result = r.second; break; }
            case HO_INSERT_R: { ins_like = true; auto r = x.insert(std::move(*pv)); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); result = r.second; break; }
            case HO_INSERT_INIT: { ins_like = true; auto r = x.insert(std::move(*pi)); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); result = r.second; break; }
            case HO_INSERT_HINT: { ins_like = true; if (aux & 1) check_it(x, x.insert(x.begin(), *pv), i, k); else check_it(x, x.insert(x.end(), std::move(*pi)), i, k); result = !has; break; }
            case HO_INSERT_RANGE:
                if (aux & 1) x.insert(rng->begin(), rng->end());
                else { struct In { using iterator_category = std::input_iterator_tag; using value_type = init_type; using difference_type = ptrdiff_t; using pointer = const init_type*; using reference = const init_type&; const init_type* p; reference operator*() const { return *p; } In& operator++() { ++p; return *this; } In operator++(int) { In o = *this; ++p; return o; } bool operator==(const In& o) const { return p == o.p; } bool operator!=(const In& o) const { return p != o.p; } };
                       x.insert(In{ rng->data() }, In{ rng->data() + rng->size() }); }
                break;
            case HO_INSERT_IL: x.insert({ (*rng)[0], (*rng)[1], (*rng)[2] }); break;
            case HO_EMPLACE: { ins_like = true; if constexpr (MAP) { auto r = x.emplace(ko, vo); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } else { auto r = x.emplace(ko); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } break; }
            case HO_EMPLACE_CONV: { ins_like = true; if constexpr (MAP) { auto r = x.emplace(k, w); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } else { auto r = x.emplace(k); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } break; }
            case HO_EMPLACE_PIECE: {
                ins_like = true;
                if constexpr (MAP) { auto r = x.emplace(std::piecewise_construct, std::make_tuple(k), std::make_tuple(w)); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); }
                else { auto r = x.emplace_with_hash(h, k); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); }
                break;
            }
            case HO_EMPLACE_ND: {  // arguments from which the key cannot be deduced: the element is built first
                ins_like = true;
                auto go = [&](auto&&... a) {
                    std::pair<typename C::iterator, bool> r{ x.end(), !has };
                    switch (aux % 4) {
                    case 0: r = x.emplace(a...); break;
                    case 1: r = x.emplace_with_hash(h, a...); break;
                    case 2: r.first = x.emplace_hint(x.begin(), a...); break;
                    default: r.first = x.emplace_hint_with_hash(h, x.end(), a...); break;
                    }
                    expect(r.second, !has, "insertion"); check_it(x, r.first, i, k);
                    if (vof(*r.first) != (has ? md[k] : mv(w))) fail("model", "emplace(key parts) refers to a wrong value");
                };
                if constexpr (MAP) go(std::piecewise_construct, std::make_tuple(k, 0), std::make_tuple(w)); else go(k, 0);
                break;
            }
            case HO_ITERATE: {
                size_t n = 0;
                typename C::const_iterator ci = x.cbegin(), ce = x.cend();
                typename C::iterator it = x.begin();
                while (ci != ce) {
                    if (++n > x.size()) fail("model", "iteration longer than size()");
                    if (&*ci != &*it) fail("model", "cbegin() and begin() show different elements");
                    typename C::const_iterator o = (aux & 1) ? ci++ : ci;
                    if (!(aux & 1)) ++ci;
                    if (kof(*o) != kof(*it) || !(o == typename C::const_iterator(it))) fail("model", "it++ returned another position");
                    if constexpr (MAP) { if (&o->first != &it->first) fail("model", "operator-> refers to another element"); }
                    it++;
                }
                if (n != x.size() || it != x.end()) fail("model", "const iteration shows %zu of %zu elements", n, (size_t)x.size());
                break;
            }
            case HO_EMPLACE_HINT: ins_like = true; if constexpr (MAP) check_it(x, x.emplace_hint(x.begin(), ko, vo), i, k); else check_it(x, x.emplace_hint(x.begin(), ko), i, k); break;
            case HO_EMPLACE_HASH: { ins_like = true; if constexpr (MAP) { auto r = x.emplace_with_hash(h, ko, vo); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } else { auto r = x.emplace_with_hash(h, ko); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } break; }
            case HO_TRY_EMPLACE: if constexpr (MAP) { ins_like = true; auto r = x.try_emplace(ko, vo); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } break;
            case HO_TRY_EMPLACE_R: if constexpr (MAP) { ins_like = true; auto r = x.try_emplace(std::move(km), std::move(vm)); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k);
                if (!r.second && (km.moved || vm.moved)) fail("model", "try_emplace moved from its arguments although the key was present"); } break;
            case HO_TRY_EMPLACE_HINT: if constexpr (MAP) { ins_like = true; if (aux & 1) check_it(x, x.try_emplace(x.begin(), ko, vo), i, k); else { check_it(x, x.try_emplace(x.end(), std::move(km), std::move(vm)), i, k); if (has && (km.moved || vm.moved)) fail("model", "try_emplace(hint) moved from its arguments although the key was present"); } } break;
            case HO_IOA: if constexpr (MAP) { ins_like = true; auto r = (aux & 1) ? x.insert_or_assign(ko, vo) : x.insert_or_assign(ko, std::move(vm)); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); if (val(r.first->second) != w) fail("model", "insert_or_assign left the old value"); } break;
            case HO_IOA_R: if constexpr (MAP) { ins_like = true; auto r = (aux & 1) ? x.insert_or_assign(std::move(km), std::move(vm)) : x.insert_or_assign(std::move(km), vo); expect(r.second, !has, "insertion"); check_it(x, r.first, i, k); } break;
            case HO_IOA_HINT: if constexpr (MAP) { ins_like = true; check_it(x, aux % 4 == 0 ? x.insert_or_assign(x.end(), ko, vo) : aux % 4 == 1 ? x.insert_or_assign(x.begin(), ko, std::move(vm)) : aux % 4 == 2 ? x.insert_or_assign(x.end(), std::move(km), vo) : x.insert_or_assign(x.end(), std::move(km), std::move(vm)), i, k); } break;
            case HO_INDEX: if constexpr (MAP) { ins_like = true; auto& r = (aux & 1) ? x[ko] : x[std::move(km)]; if (val(r) != (has ? md[k] : 0)) fail("model", "operator[] refers to %lld", (long long)val(r)); } break;
            case HO_AT:
                if constexpr (MAP) {
                    bool oor = false;
                    try { int64_t g = (aux & 1) ? val(x.at(ko)) : val(std::as_const(x).at(ko)); if (!has || g != md[k]) fail("model", "at(%lld) returned %lld", (long long)k, (long long)g); }
                    catch (const std::out_of_range&) { oor = true; }
                    if (oor == has) fail("model", "at(%lld) %s", (long long)k, oor ? "threw out_of_range for a present key" : "did not throw for an absent key");
                }
                break;
            case HO_LAZY: case HO_LAZY_HASH: {
                ins_like = true;
                int called = 0;
                auto f = [&](const typename C::constructor& ctor) {
                    called++;
                    if (fault_event(F_CALL)) throw Injected{ F_CALL };
                    if constexpr (MAP) ctor(ko, vo); else ctor(ko);
                    if (fault_event(F_CALL)) throw Injected{ F_CALL };
                };
                auto it = op.code == HO_LAZY ? x.lazy_emplace(ko, f) : x.lazy_emplace_with_hash(ko, h, f);
                check_it(x, it, i, k);
                expect(called == 1, !has, "constructor callback");
                break;
            }
            case HO_TOGGLE:
                if constexpr (PARALLEL) {
                    ins_like = true;
                    x.emplace_single(ko, [&](const typename C::constructor& ctor) { if (fault_event(F_CALL)) throw Injected{ F_CALL }; if constexpr (MAP) ctor(ko, vo); else ctor(ko); });
                }
                break;
            case HO_ERASE_KEY: result = (int64_t)x.erase(ko); expect(result == 1, has, "erase"); break;
            case HO_ERASE_IT: if (has) { auto it = x.find(ko); if (aux & 1) { auto nx = it; ++nx; auto r = x.erase(it); if (r != nx) fail("model", "erase(it) did not return the next iterator"); } else x.erase(typename C::const_iterator(it)); } break;
            case HO_ERASE_RANGE:
                {
                    auto a1 = x.begin(); for (int64_t q = 0; q < k % 7 && a1 != x.end(); ++q) ++a1;
                    auto a2 = a1; int64_t n = 0; for (; n < aux % 9 && a2 != x.end(); ++n) { Ignore g; target.erase(kof(*a2)); ++a2; }
                    auto r = x.erase(typename C::const_iterator(a1), typename C::const_iterator(a2));
                    if (r != a2) fail("model", "erase(range) did not return last");
                }
                break;
            case HO_ERASE_IF: {
                using std::erase_if;
                size_t n0 = x.size(); (void)n0;
                size_t want = 0;
                { Ignore g; for (auto it = target.begin(); it != target.end();) if ((it->first + w) % 3 == 0) { it = target.erase(it); ++want; } else ++it; }
                size_t n = erase_if(x, [&](const value_type& v) { return (kof(v) + w) % 3 == 0; });
                if (n != want) fail("model", "erase_if returned %zu, should be %zu", n, want);
                break;
            }
            case HO_ERASE_LOOP: {
                size_t vis = 0, n0 = x.size();
                for (auto it = x.begin(); it != x.end();) {
                    if (++vis > n0) fail("model", "erase-while-iterating visits more elements than size()");
                    int64_t kk = kof(*it);
                    if ((kk + w) % 2) { { Ignore g; target.erase(kk); } if (aux & 1) it = x.erase(it); else x._erase(it++); } else ++it;
                }
                if (vis != n0) fail("model", "erase-while-iterating visited %zu of %zu elements", vis, n0);
                break;
            }
            case HO_FIND: { auto it = (aux & 1) ? x.find(ko) : x.find(ko, h); expect(it != x.end(), has, "find"); if (has) { check_it(x, it, i, k); if (vof(*it) != md[k]) fail("model", "find returned a stale value"); } break; }
            case HO_CONTAINS: expect((aux & 1) ? std::as_const(x).contains(ko) : std::as_const(x).contains(ko, h), has, "contains"); break;
            case HO_COUNT: expect(std::as_const(x).count(ko) == 1, has, "count"); break;
            case HO_EQUAL_RANGE: if (aux & 1) { auto r = std::as_const(x).equal_range(ko); expect(r.first != r.second, has, "equal_range() const"); if (has) { if (kof(*r.first) != k) fail("model", "equal_range() const refers to another key"); if (++r.first != r.second) fail("model", "equal_range longer than 1"); } break; } else { auto r = x.equal_range(ko); size_t n = 0; for (auto it = r.first; it != r.second; ++it) { if (++n > 1) fail("model", "equal_range longer than 1"); check_it(x, it, i, k); } expect(n == 1, has, "equal_range"); break; }
            case HO_HETERO:
                if constexpr (TRANSPARENT) {
                    switch (aux % 6) {
                    case 0: expect(x.contains(k), has, "heterogeneous contains"); break;
                    case 1: expect(x.find(k) != x.end(), has, "heterogeneous find"); break;
                    case 2: expect(x.count(k) == 1, has, "heterogeneous count"); break;
                    case 3: expect(x.erase(k) == 1, has, "heterogeneous erase"); { Ignore g; target.erase(k); } break;
                    case 4: ins_like = true; if constexpr (MAP) { auto r = x.try_emplace(k, w); expect(r.second, !has, "heterogeneous try_emplace"); } else { auto r = x.insert(k); expect(r.second, !has, "heterogeneous insert"); } { Ignore g; target.emplace(k, mv(w)); } break;
                    case 5: ins_like = true; if constexpr (MAP) { auto r = x.insert_or_assign(k, vo); expect(r.second, !has, "heterogeneous insert_or_assign"); Ignore g; target[k] = mv(w); } break;
                    }
                }
                break;
            case HO_EXTRACT_KEY: case HO_EXTRACT_IT: {
                if (op.code == HO_EXTRACT_IT && !has) break;
                if (held.size() >= 3) break;
                node_type n = op.code == HO_EXTRACT_KEY ? x.extract(ko) : x.extract(x.find(ko));
                expect(!n.empty(), has, "extract"); expect((bool)n, has, "extract");
                if (!n.empty()) {
                    int64_t nk, nv; const void* p;
                    if constexpr (MAP) { nk = val(n.key()); nv = val(n.mapped()); p = &n.mapped(); } else { nk = val(n.value()); nv = 1; p = &n.value(); }
                    if (nk != k || nv != md[k]) fail("model", "extracted node holds (%lld,%lld), should be (%lld,%lld)", (long long)nk, (long long)nv, (long long)k, (long long)md[k]);
                    Ignore g;
                    Held hd; hd.n.reset(new node_type()); *hd.n = std::move(n); hd.k = k; hd.v = nv; hd.al = al[i]; hd.p = p;
                    held.push_back(std::move(hd));
                    result = 1;
                } 
                break;
            }
            case HO_INSERT_NODE: case HO_INSERT_NODE_HINT: {
                ins_like = true;
                size_t q; { Ignore g; for (q = 0; q < held.size(); ++q) if (held[q].al == al[i]) break; }
                if (q == held.size()) {  // an empty node changes nothing
                    node_type e;
                    auto r = x.insert(std::move(e));
                    if (r.inserted || r.position != x.end() || !r.node.empty()) fail("model", "insert of an empty node reported an insertion");
                    break;
                }
                Held& hd = held[q];
                bool hh = md.count(hd.k) != 0;
                if (op.code == HO_INSERT_NODE) {
                    auto r = x.insert(std::move(*hd.n));
                    expect(r.inserted, !hh, "node insertion");
                    check_it(x, r.position, i, hd.k);
                    if (r.inserted == !r.node.empty()) fail("model", "insert(node): returned node is %s", r.node.empty() ? "empty although nothing was inserted" : "not empty although it was inserted");
                    if (!r.inserted) { *hd.n = std::move(r.node); result = 2; } else result = 1;
                } else {
                    check_it(x, x.insert(x.begin(), std::move(*hd.n)), i, hd.k);
                    result = hh ? 3 : 1;
                }
                Ignore g;
                if (result == 1) target.emplace(hd.k, hd.v);
                if (result != 2) held.erase(held.begin() + (long)q);  // (a rejected hinted node stays with or dies with the caller's handle)
                break;
            }
            case HO_DROP_NODE: if (!held.empty()) { Ignore g; held.pop_back(); } break;
            case HO_MERGE: {
                if (i == j || al[i] != al[j] || (PARALLEL && hs[i] != hs[j])) break;   // merging parallel containers needs the same hash function
                if (aux & 1) x.merge(*c[j]); else x.merge(std::move(*c[j]));
                result = 1;
                break;
            }
            case HO_SWAP: {
                if constexpr (SALLOC) if (!std::allocator_traits<typename C::allocator_type>::propagate_on_container_swap::value && al[i] != al[j]) break;
                if (SALLOC || aux % 3 == 0) x.swap(*c[j]); else if (i != j) { using std::swap; swap(x, *c[j]); } else break;
                result = 1;
                break;
            }
            case HO_CLEAR: x.clear(); break;
            case HO_REHASH: if constexpr (NODE) { if (aux & 1) { x.resize((size_t)(aux % 130)); break; } } x.rehash((size_t)(aux % 130)); break;
            case HO_REHASH0: x.rehash(0); break;
            case HO_RESERVE: case HO_RESERVE_FILL: x.reserve((size_t)(aux % 100)); break;
            case HO_COPY_CTOR: fresh = sim_new<C>(std::as_const(x)); break;
            case HO_COPY_ASSIGN: { auto& r = (*c[j] = std::as_const(x)); if (&r != c[j]) fail("model", "operator= returned another object"); break; }
            case HO_MOVE_CTOR: fresh = sim_new<C>(std::move(x)); break;
            case HO_MOVE_ASSIGN: { if (i == j) break; auto& r = (*c[j] = std::move(x)); if (&r != c[j]) fail("model", "operator= returned another object"); break; }
            case HO_SELF_ASSIGN: { C& y = x; x = y; break; }
            case HO_EQ: {
                if (PARALLEL && hs[i] != hs[j]) break;   // as for merge: parallel containers compare submap by submap, which needs the same hash function
                bool want; { Ignore g; want = m[i] == m[j]; }
                if ((x == *c[j]) != want || (x != *c[j]) == want) fail("model", "operator== / != of containers %d and %d is wrong (contents %s)", i, j, want ? "equal" : "differ");
                break;
            }
            case HO_RANGE_CTOR: 
                switch (aux & 7) {
                case 4: fresh = sim_new<C>(rng->begin(), rng->end(), (size_t)(aux % 40), mkhash(0), mkalloc(0)); break;
                case 5: fresh = sim_new<C>((size_t)(aux % 40), mkalloc(0)); fresh->insert(rng->begin(), rng->end()); break;
                case 6: fresh = sim_new<C>((size_t)(aux % 40), mkhash(0), mkalloc(0)); fresh->insert(rng->begin(), rng->end()); break;
                case 7: fresh = sim_new<C>(mkalloc(0)); fresh->insert(rng->begin(), rng->end()); break;
                case 0: fresh = sim_new<C>(rng->begin(), rng->end(), (size_t)(aux % 40)); break;
                case 1: fresh = sim_new<C>(rng->begin(), rng->end(), mkalloc(0)); break;
                case 2: fresh = sim_new<C>(rng->begin(), rng->end(), (size_t)(aux % 40), mkalloc(0)); break;
                default: fresh = sim_new<C>(rng->begin(), rng->end(), (size_t)(aux % 40), mkhash((int)(aux >> 4) % 3), mkeq((int)(aux >> 4) % 3), mkalloc(0)); break;
                }
                break;
            case HO_IL_CTOR: {
                std::initializer_list<init_type> il{ (*rng)[0], (*rng)[1], (*rng)[2] };
                switch (aux & 3) {
                case 0: fresh = sim_new<C>(il); break;
                case 1: fresh = sim_new<C>(il, mkalloc(0)); break;
                case 2: fresh = sim_new<C>(il, (size_t)(aux % 40), mkalloc(0)); break;
                default: fresh = sim_new<C>(il, (size_t)(aux % 40), mkhash(0), mkalloc(0)); break;
                }
                break;
            }
            case HO_ASSIGN_IL: if constexpr (!SALLOC) { x = C({ (*rng)[0], (*rng)[1], (*rng)[2] }); } break;
            case HO_ALLOC_COPY: fresh = sim_new<C>(std::as_const(x), mkalloc(SALLOC ? (int)(aux % 4) : 0)); break;
            case HO_ALLOC_MOVE: fresh = sim_new<C>(std::move(x), mkalloc(SALLOC ? (int)(aux % 4) : 0)); break;
            case HO_STATS: {
                float lf = x.load_factor();
                if (lf < 0 || lf > 1.0f) fail("model", "load_factor() is %f", (double)lf);
                if (x.max_load_factor() < lf) fail("model", "max_load_factor() below load_factor()");
                if (x.max_size() < x.size()) fail("model", "max_size() below size()");
                if (x.capacity() > (size_t(1) << 32)) fail("model", "capacity() is %zu", (size_t)x.capacity());
                if (x.bucket_count() < x.size()) fail("model", "bucket_count() below size()");
                x.prefetch(ko); x.prefetch_hash(h);
                if (x.hash_function()(ko) != mkhash(hs[i])(ko) || !x.key_eq()(ko, ko)) fail("model", "hash_function() or key_eq() is not the container's");
                if (!PARALLEL && (x.bucket_count() != x.capacity())) fail("model", "bucket_count() != capacity()");
                break;
            }
            case HO_FILL: for (int64_t q = 0; q < aux % 40 * scale; ++q) { int64_t kk = (k + q) % K; if constexpr (MAP) x.try_emplace(Obj(kk), Obj(w + q)); else x.insert(Obj(kk)); Ignore g; target.emplace(kk, mv(w + q)); } break;
            case HO_CHURN: {  // many insertions and erasures through a window of live keys: tombstones, in-place rehash
                const int64_t n = churn_n(aux, w), d = (w >> 1) % 3 ? (w >> 2) % 24 : 0;
                for (int64_t q = 0; q < n + d; ++q) {
                    if (q < n) {
                        int64_t kk = K + 1000 + q * 7 + w % 5;
                        if constexpr (MAP) x.try_emplace(Obj(kk), Obj(w)); else x.insert(Obj(kk));
                        Ignore g; target.emplace(kk, mv(w));
                    }
                    if (q < d) continue;
                    int64_t kk = K + 1000 + (q - d) * 7 + w % 5;
                    if (x.erase(Obj(kk)) != 1) fail("model", "erase of a recently inserted key returned 0");
                    Ignore g; target.erase(kk);
                }
                break;
            }
            case HO_TOMB: {  // up to the growth limit, then most of it removed again: full groups, many tombstones, in-place rehash next
                size_t cap = x.capacity();
                tombs = (int64_t)std::min<size_t>(cap - cap / 8 > x.size() ? cap - cap / 8 - x.size() : 0, 240) + (w & 1);
                for (int64_t q = 0; q < tombs; ++q) { if constexpr (MAP) x.try_emplace(Obj(tk(q, w)), Obj(w)); else x.insert(Obj(tk(q, w))); Ignore g; target.emplace(tk(q, w), mv(w)); }
                // sometimes the latest insertions stay instead: they sit furthest from where their hash points
                int64_t keep = (aux >> 4) % 3 ? (aux >> 6) % (tombs / 3 + 1) : 0;
                if (keep && (aux >> 5) % 4) { Model old; { Ignore g; old = md; } for (auto& p : old) if (p.first < K + 9000) { x.erase(Obj(p.first)); Ignore g; target.erase(p.first); } Ignore g; Model().swap(old); }
                for (int64_t q = 0; q < tombs - keep; ++q) {
                    int64_t kk = tk((aux & 1) ? q : tombs - keep - 1 - q, w);
                    if (x.erase(Obj(kk)) != 1) fail("model", "erase of a just inserted key returned 0");
                    { Ignore g; target.erase(kk); }
                }
                if constexpr (!PARALLEL && !NODE) if (aux & 256) {   // insertions covered by a reserve do not move anything, whatever was erased before
                    size_t d = (size_t)(aux >> 9) % 10 + 1;
                    x.reserve(x.size() + d);
                    auto* at = &tomb_at; { Ignore g; at->clear(); }
                    for (auto& e : x) { int64_t kk = kof(e); Ignore g; (*at)[kk] = &e; }
                    for (size_t q = 0; q < d; ++q) { if constexpr (MAP) x.try_emplace(Obj(tk(300 + (int64_t)q, w)), Obj(w)); else x.insert(Obj(tk(300 + (int64_t)q, w))); Ignore g; target.emplace(tk(300 + (int64_t)q, w), mv(w)); }
                    for (auto& e : x) { int64_t kk = kof(e); Ignore g; auto f = at->find(kk); if (f != at->end() && f->second != &e) fail("stability", "reserve(%zu) was followed by %zu insertions, which moved the element with key %lld", x.size(), d, (long long)kk); }
                    for (size_t q = 0; q < d; ++q) { if (x.erase(Obj(tk(300 + (int64_t)q, w))) != 1) fail("model", "erase of a just inserted key returned 0"); Ignore g; target.erase(tk(300 + (int64_t)q, w)); }
                }
                for (int64_t q = 0; q < (aux >> 1) % 5; ++q) {
                    int64_t kk = tk(300 + q, w);
                    if constexpr (MAP) x.try_emplace(Obj(kk), Obj(w)); else x.insert(Obj(kk));
                    { Ignore g; target.emplace(kk, mv(w)); }
                    if (x.erase(Obj(kk)) != 1) fail("model", "erase of a just inserted key returned 0");
                    { Ignore g; target.erase(kk); }
                }
                break;
            }
            case HO_WRITE_REF: if constexpr (MAP) if (has) { auto it = x.find(ko); it->second.set(w); Ignore g; target[k] = w; } break;
            }
        } catch (const Injected&) {
            threw = true;
        } catch (const std::bad_alloc&) {
            if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", hash_opname(0, op.code));
            threw = true;
        }
        disarm();
        // ---- model update
        bool single = false;
        if (threw) {
            count("failed_ops");
            switch (op.code) {
            case HO_ERASE_KEY: case HO_ERASE_IT: case HO_ERASE_RANGE: case HO_ERASE_IF: case HO_ERASE_LOOP: case HO_FIND: case HO_CONTAINS: case HO_COUNT: case HO_EQUAL_RANGE:
            case HO_EXTRACT_KEY: case HO_EXTRACT_IT: case HO_SWAP: case HO_CLEAR: case HO_EQ: case HO_STATS: case HO_DROP_NODE:
            case HO_MOVE_CTOR:
                fail("failed-op", "%s failed although it must not", hash_opname(0, op.code));
            case HO_INSERT_RANGE: case HO_INSERT_IL: { Model lo = md; resync(i, lo, target); stable_next[i] = false; room[i] = 0; break; }
            case HO_TOMB: { Model hi = target, lo = md; for (auto& p : md) hi.emplace(p.first, p.second); for (int64_t q = 0; q < 310; ++q) if (q < tombs || q >= 300) hi.emplace(tk(q, w), mv(w)); lo.clear(); resync(i, lo, hi); stable_next[i] = false; room[i] = 0; break; }
            case HO_FILL: case HO_CHURN: { Model hi = target, lo = md; if (op.code == HO_CHURN) for (int64_t q = 0; q < churn_n(aux, w); ++q) { hi.emplace(K + 1000 + q * 7 + w % 5, mv(w)); lo.erase(K + 1000 + q * 7 + w % 5); for (auto& p : md) hi.emplace(p.first, p.second); } else for (int64_t q = 0; q < aux % 40 * scale; ++q) hi.emplace((k + q) % K, mv(w + q)); resync(i, lo, hi); stable_next[i] = false; room[i] = 0; break; }
            case HO_MERGE: {
                // every element is in exactly one of the two
                Model all = m[i], src = m[j]; std::map<int64_t, int64_t> dummy;
                Model lo_i = m[i]; Model hi_i = m[i]; for (auto& p : src) hi_i.emplace(p.first, p.second);
                resync(i, lo_i, hi_i);
                Model left; for (auto& p : src) if (all.count(p.first) || !m[i].count(p.first)) left[p.first] = p.second;
                m[j] = left;
                for (auto& p : m[i]) if (addr[j].count(p.first) && !all.count(p.first)) { addr[i][p.first] = addr[j][p.first]; addr[j].erase(p.first); }
                stable_next[i] = false; room[i] = room[j] = 0;
                break;
            }
            case HO_COPY_ASSIGN: if (PARALLEL) { Model lo, hi = m[j]; for (auto& p : m[i]) if (!hi.emplace(p.first, p.second).second && hi[p.first] != p.second) hi.erase(p.first); unordered_resync(j); } break;
            case HO_ASSIGN_IL: break;
            case HO_ALLOC_MOVE: case HO_MOVE_ASSIGN: unordered_resync(i); if (op.code == HO_MOVE_ASSIGN) unordered_resync(j); break;
            case HO_SELF_ASSIGN: if (PARALLEL) unordered_resync(i); break;
            default: single = true; break;   // strong guarantee: nothing changed
            }
            if (single || op.code == HO_REHASH || op.code == HO_RESERVE) { stable_next[i] = false; }
            if (ins_like) room[i] = 0;
        } else {
            switch (op.code) {
            case HO_INSERT_C: case HO_INSERT_R: case HO_INSERT_INIT: case HO_INSERT_HINT: case HO_EMPLACE: case HO_EMPLACE_PIECE: case HO_EMPLACE_HINT: case HO_EMPLACE_HASH: case HO_LAZY: case HO_LAZY_HASH: case HO_EMPLACE_CONV: case HO_EMPLACE_ND:
                md.emplace(k, mv(w)); break;
            case HO_TRY_EMPLACE: case HO_TRY_EMPLACE_R: if (MAP) md.emplace(k, mv(w)); break;
            case HO_TRY_EMPLACE_HINT: if (MAP) md.emplace(k, mv(w)); break;
            case HO_IOA: case HO_IOA_R: case HO_IOA_HINT: if (MAP) md[k] = mv(w); break;
            case HO_INDEX: if (MAP) md.emplace(k, 0); break;
            case HO_TOGGLE: if (PARALLEL) { if (has) md.erase(k); else md.emplace(k, mv(w)); } break;
            case HO_ERASE_KEY: case HO_ERASE_IT: md.erase(k); break;
            case HO_EXTRACT_KEY: case HO_EXTRACT_IT: if (result) md.erase(k); break;
            case HO_INSERT_RANGE: case HO_INSERT_IL: case HO_FILL: case HO_CHURN: case HO_TOMB: case HO_ERASE_RANGE: case HO_ERASE_IF: case HO_ERASE_LOOP: case HO_HETERO: case HO_INSERT_NODE: case HO_INSERT_NODE_HINT: case HO_WRITE_REF:
                md = target; break;
            case HO_ASSIGN_IL: if (!SALLOC) { md = target; addr[i].clear(); } break;
            case HO_CLEAR: md.clear(); break;
            case HO_MERGE:
                if (result) for (auto it = m[j].begin(); it != m[j].end();) { if (md.emplace(it->first, it->second).second) { if (addr[j].count(it->first)) addr[i][it->first] = addr[j][it->first]; addr[j].erase(it->first); it = m[j].erase(it); } else ++it; }
                break;
            case HO_SWAP: if (result) { std::swap(m[i], m[j]); std::swap(addr[i], addr[j]); std::swap(room[i], room[j]); std::swap(hs[i], hs[j]); if constexpr (SALLOC) std::swap(al[i], al[j]); } break;
            case HO_COPY_CTOR: case HO_ALLOC_COPY: case HO_RANGE_CTOR: case HO_IL_CTOR: case HO_MOVE_CTOR: case HO_ALLOC_MOVE: {
                // replace container j by the fresh one
                Model nm = (op.code == HO_RANGE_CTOR || op.code == HO_IL_CTOR) ? target : md;
                bool mvd = op.code == HO_MOVE_CTOR || op.code == HO_ALLOC_MOVE;
                auto naddr = addr[i];
                const int hs_i = hs[i];
                bool same_alloc = true;
                if constexpr (SALLOC) {
                    int want = (op.code == HO_ALLOC_COPY || op.code == HO_ALLOC_MOVE) ? (int)(aux % 4) : (op.code == HO_RANGE_CTOR || op.code == HO_IL_CTOR) ? 0 : op.code == HO_COPY_CTOR ? al[i] ^ 1 : al[i];
                    int got = alid(*fresh);
                    if (got != want) fail("allocator", "%s: new container uses allocator #%d, should be #%d", hash_opname(0, op.code), got, want);
                    same_alloc = want == al[i];
                }
                if (mvd) { resync_moved_from(i, same_alloc); room[i] = 0; if (i == j) { /* old object dies below */ } }
                if (fresh) {
                    { Active a; sim_delete(c[j]); }
                    c[j] = fresh; fresh = nullptr;
                    m[j] = nm;
                    hs[j] = op.code == HO_RANGE_CTOR ? ((aux & 7) == 3 ? (int)(aux >> 4) % 3 : 0) : op.code == HO_IL_CTOR ? 0 : hs_i;
                    al[j] = alid(*c[j]);
                    addr[j].clear(); room[j] = 0;
                    if (mvd && same_alloc) { addr[j] = naddr; }
                    else if (!mvd) stable_next[j] = false;
                }
                break;
            }
            case HO_COPY_ASSIGN: m[j] = md; addr[j].clear(); room[j] = 0; hs[j] = hs[i]; if constexpr (SALLOC) upd_al(j, std::allocator_traits<typename C::allocator_type>::propagate_on_container_copy_assignment::value ? al[i] : al[j]); break;
            case HO_MOVE_ASSIGN:
                if (i != j) {
                    Model nm = md; auto na = addr[i];
                    bool same = true;
                    if constexpr (SALLOC) { bool pm = std::allocator_traits<typename C::allocator_type>::propagate_on_container_move_assignment::value; same = pm || al[i] == al[j]; upd_al(j, pm ? al[i] : al[j]); }
                    m[j] = nm; room[i] = room[j] = 0; hs[j] = hs[i];
                    if (same) addr[j] = na; else addr[j].clear();
                    resync_moved_from(i, same);
                }
                break;
            case HO_SELF_ASSIGN: addr[i].clear(); room[i] = 0; break;
            case HO_RESERVE: case HO_RESERVE_FILL: stable_next[i] = false; break;
            default: break;
            }
            if (op.code == HO_REHASH || op.code == HO_REHASH0) stable_next[i] = false;
            if (op.code == HO_MERGE && result) { stable_next[i] = false; }
            if (op.code == HO_INSERT_RANGE || op.code == HO_INSERT_IL || op.code == HO_FILL || op.code == HO_CHURN || op.code == HO_TOMB || op.code == HO_ASSIGN_IL) { stable_next[i] = false; room[i] = 0; }
            if (ins_like && md.size() > before) { if (room[i] > 0) room[i]--; else stable_next[i] = false; }
        }
        if (fresh) { Active a; sim_delete(fresh); }
        if constexpr (SEEDS) {
            if (!SALLOC && op.code == HO_ASSIGN_IL && !threw) hs[i] = 0;
            if (op.code == HO_MOVE_CTOR || op.code == HO_ALLOC_MOVE || op.code == HO_MOVE_ASSIGN || op.code == HO_COPY_ASSIGN || op.code == HO_SELF_ASSIGN || op.code == HO_ASSIGN_IL) {
                if (threw || (i != j && (op.code == HO_MOVE_CTOR || op.code == HO_ALLOC_MOVE || op.code == HO_MOVE_ASSIGN))) hs[i] = seed_of(i);   // moved-from: any state
                if (threw) hs[j] = seed_of(j);
            }
            check_seed(i); check_seed(j);
        }
        // reserve bookkeeping for flat containers: that many insertions must not move anything, whatever is erased meanwhile
        const bool erasing = op.code == HO_ERASE_KEY || op.code == HO_ERASE_IT || op.code == HO_ERASE_RANGE || op.code == HO_ERASE_IF || op.code == HO_ERASE_LOOP || op.code == HO_EXTRACT_KEY || op.code == HO_EXTRACT_IT || op.code == HO_TOGGLE;
        if (!threw && op.code == HO_RESERVE && !PARALLEL && !NODE) room[i] = (size_t)(aux % 100) > before ? (size_t)(aux % 100) - before : 0;
        else
        if (!threw && op.code == HO_RESERVE_FILL && !PARALLEL && !NODE) {
            // empty it first so that no erased slot is around, then reserve and fill up to the promise
            { Active a; x.clear(); x.rehash(0); x.reserve((size_t)(aux % 100)); }
            md.clear(); addr[i].clear(); room[i] = (size_t)(aux % 100); stable_next[i] = false;
        } else if ((md.size() < before && !erasing) || threw || op.code == HO_CLEAR || op.code == HO_RESERVE || op.code == HO_MERGE || op.code == HO_REHASH || op.code == HO_REHASH0 || op.code == HO_CHURN || op.code == HO_TOMB)
            room[i] = 0;
        if (op.code == HO_MERGE) room[j] = 0;
        trace_op(1, op.code, result * 31 + (int64_t)md.size() * 7 + threw);
        bool full = true;
        for (int q = 0; q < NC; ++q) if (m[q].size() > 60 && (w % 8)) full = false;
        if (full) for (int q = 0; q < NC; ++q) observe(q, true);
        else for (int q = 0; q < NC; ++q) { observe(q, false); if (!NODE) { addr[q].clear(); room[q] = 0; } else for (auto it = addr[q].begin(); it != addr[q].end();) if (!m[q].count(it->first)) it = addr[q].erase(it); else ++it; }
        lookup(i, k); lookup(j, (k * 5 + 1) % K); lookup(i, K + 77);
    }
    void upd_al(int j, int want) {
        if constexpr (SALLOC) { int got = alid(*c[j]); if (got != want) fail("allocator", "%s: container uses allocator #%d, should be #%d", hash_opname(0, cur->code), got, want); al[j] = want; }
        else { (void)j; (void)want; }
    }
    // moved-from: valid but unspecified -> whatever it shows must be consistent; then empty it
    void resync_moved_from(int i, bool stolen) {
        Active a;
        C& x = *c[i];
        size_t n = 0;
        for (auto it = x.begin(); it != x.end(); ++it) if (++n > x.size()) fail("model", "moved-from container iterates more elements than size()");
        if (n != x.size()) fail("model", "moved-from container: size()=%zu, iteration=%zu", (size_t)x.size(), n);
        if (n && stolen) fail("model", "the moved-from container still holds %zu elements", n);
        x.clear();
        Ignore g;
        m[i].clear(); addr[i].clear(); room[i] = 0;
    }
    // a failed assignment: only validity is promised
    void unordered_resync(int i) {
        Active a;
        C& x = *c[i];
        size_t n = 0;
        for (auto it = x.begin(); it != x.end(); ++it) {
            if (++n > x.size()) fail("model", "after a failed %s: iteration longer than size()", hash_opname(0, cur->code));
            kof(*it);   // fails on a key that was moved from
            if (!(SEEDS && PARALLEL) && x.find([&]() -> const auto& { if constexpr (MAP) return it->first; else return *it; }()) != it) fail("model", "after a failed %s: an element is not found under its key", hash_opname(0, cur->code));
        }
        if (n != x.size()) fail("model", "after a failed %s: size()=%zu, iteration=%zu", hash_opname(0, cur->code), (size_t)x.size(), n);
        x.clear();
        if constexpr ((SALLOC || SEEDS) && PARALLEL) {  // its submaps may now use different allocators or functors: start over with a fresh container
            sim_delete(c[i]);
            c[i] = sim_new<C>((size_t)0, mkhash(hs[i]), mkeq(hs[i]), mkalloc(al[i]));
        }
        Ignore g;
        m[i].clear(); addr[i].clear(); room[i] = 0;
    }

    int64_t tombs = 0;
    int64_t churn_n(int64_t aux, int64_t w) const { return aux % 80 * scale * (w % 7 == 0 ? 8 : 1); }
    int64_t tk(int64_t q, int64_t w) const { return K + 9000 + q * (1 + w % 3); }
    void run(const Case& cs) {
        K = cs.params[0]; scale = cs.params.size() > 3 ? cs.params[3] : 1;
        g_hash_mode = (int)cs.params[1];
        held.clear();
        for (int i = 0; i < NC; ++i) { m[i].clear(); addr[i].clear(); room[i] = 0; al[i] = 0; }
        for (int i = 0; i < NC; ++i) {
            Active a;
            int id = SALLOC ? (int)((cs.params[2] >> (2 * i)) & 3) : 0;
            hs[i] = SEEDS ? (int)(cs.params[2] >> (2 * i)) % 3 : 0;
            if constexpr (SALLOC || SEEDS) c[i] = sim_new<C>((size_t)0, mkhash(hs[i]), mkeq(hs[i]), mkalloc(id)); else c[i] = sim_new<C>();
            al[i] = id;
        }
        for (auto& o : cs.threads[0]) step(o);
        Op fin; cur = &fin; fin.code = HO_STATS;
        for (int q = 0; q < NC; ++q) { for (int z = 0; z < NC; ++z) stable_next[z] = false; addr[q].clear(); observe(q, true); for (int64_t k = 0; k < K; ++k) lookup(q, k); }
        held.clear();
        for (int i = 0; i < NC; ++i) { Active a; sim_delete(c[i]); }
        for (int i = 0; i < NC; ++i) { m[i].clear(); addr[i].clear(); }
    }
};

struct HashMix { int w[HO_COUNT_]; int fault_pct; };
inline HashMix hash_mix(int which) {
    HashMix x{};
    for (int i = 0; i < HO_COUNT_; ++i) x.w[i] = 2;
    x.w[HO_ERASE_KEY] = 6; x.w[HO_FILL] = 2; x.w[HO_CHURN] = 1; x.w[HO_CLEAR] = 1;
    switch (which) {
    case 0: x.fault_pct = 5; break;                                     // histories
    case 1: x.fault_pct = 55; for (int i = HO_FIND; i <= HO_HETERO; ++i) x.w[i] = 1; for (int i = 0; i <= HO_TOGGLE; ++i) x.w[i] = 5; break;   // failures
    case 2: x.fault_pct = 8; for (int i : { HO_REHASH, HO_RESERVE, HO_RESERVE_FILL, HO_REHASH0, HO_SWAP, HO_MOVE_CTOR, HO_MOVE_ASSIGN, HO_MERGE, HO_EXTRACT_KEY, HO_INSERT_NODE, HO_ERASE_IT, HO_TOMB }) x.w[i] = 7; x.w[HO_FILL] = 1; x.w[HO_COPY_ASSIGN] = 1; break;  // stability
    default: x.fault_pct = 15; for (int i = HO_EXTRACT_KEY; i <= HO_SWAP; ++i) x.w[i] = 8; for (int i = HO_COPY_CTOR; i <= HO_ASSIGN_IL; ++i) x.w[i] = 8; break;  // transfers, allocators
    }
    return x;
}
inline void hash_gen(Rng& r, Case& c, int which) {
    HashMix mx = hash_mix(which);
    int64_t K = r.chance(1, 3) ? r.range(40, 200) : r.chance(1, 2) ? r.range(8, 24) : r.range(1, 6);
    c.params = { K, r.chance(1, 2) ? 0 : (int64_t)r.below(5), (int64_t)r.below(64), 1 };
    if (r.chance(1, 150)) { K = c.params[0] = r.range(300, 1500); c.params[3] = 12; if (c.params[1] > 1) c.params[1] = 0; }
    if (K > 60 && (c.params[1] == 2)) c.params[1] = 3;
    c.threads.resize(1);
    int n = r.chance(1, 3) ? (int)r.range(20, 60) : (int)r.range(2, 16);
    int tot = 0;
    for (int w : mx.w) tot += w;
    std::vector<int> pool;
    auto pick = [&]() { int x = (int)r.below((uint64_t)tot); for (int i = 0; i < HO_COUNT_; ++i) { if (x < mx.w[i]) return i; x -= mx.w[i]; } return 0; };
    if (r.chance(1, 2)) { int np = (int)r.range(2, 8); for (int i = 0; i < np; ++i) pool.push_back(pick()); }
    int nc = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Op o;
        o.code = pool.empty() || r.chance(1, 4) ? pick() : pool[r.below(pool.size())];
        o.a = (int64_t)r.below((uint64_t)K);
        o.b = (int64_t)r.below((uint64_t)nc) | ((int64_t)r.below((uint64_t)nc) << 8) | ((int64_t)r.below(65536) << 16);
        o.c = (int64_t)(i + 1) * 1000 + (int64_t)r.below(100);
        if (r.chance(mx.fault_pct, 100)) { int f = (int)r.below(5); o.fk = f < 2 ? F_ALLOC : f < 4 ? F_CTOR : F_CALL; o.fn = (int)r.range(1, r.chance(1, 3) ? 12 : 3); }
        c.threads[0].push_back(o);
    }
}
} // namespace sim

#define SEQHASH(NAME, TYPE, MAP, NODE, PARL, TRANSP, SAL)                                                                   \
    using NAME##_t = sim::SeqHash<TYPE, MAP, NODE, PARL, TRANSP, SAL>;                                                      \
    static void NAME##_run(const sim::Case& c) { static NAME##_t* p = new NAME##_t(); p->run(c); }                         \
    template<int W> static void NAME##_gen(sim::Rng& r, sim::Case& c) { sim::hash_gen(r, c, W); }                           \
    static sim::Harness NAME##_h0{ "hash0_" #NAME, NAME##_gen<0>, NAME##_run, sim::hash_opname, nullptr };                  \
    static sim::Harness NAME##_h1{ "hash1_" #NAME, NAME##_gen<1>, NAME##_run, sim::hash_opname, nullptr };                  \
    static sim::Harness NAME##_h2{ "hash2_" #NAME, NAME##_gen<2>, NAME##_run, sim::hash_opname, nullptr };                  \
    static sim::Harness NAME##_h3{ "hash3_" #NAME, NAME##_gen<3>, NAME##_run, sim::hash_opname, nullptr };                  \
    static sim::Reg NAME##_r0(&NAME##_h0), NAME##_r1(&NAME##_h1), NAME##_r2(&NAME##_h2), NAME##_r3(&NAME##_h3);
