// Any number of threads may read one container at the same time, and threads that each use
// their own containers do not affect each other - also when these were copied, moved or
// swapped from one another before.
#include "elem.h"
#include "gtl/bit_vector.hpp"
#include "gtl/btree.hpp"
#include "gtl/phmap.hpp"
#include "gtl/vector.hpp"
#include <algorithm>
#include <memory>
#include <vector>
using namespace sim;

namespace {
enum { K_FIND, K_CFIND, K_CONTAINS, K_COUNT, K_EQRANGE, K_ITER, K_CITER, K_REV, K_BOUNDS, K_AT, K_SIZE, K_EQ, K_COPY, K_MISC, K_NSHARED,
       K_PINS = K_NSHARED, K_PERASE, K_PCLEAR, K_PREHASH, K_PASSIGN, K_PSWAP, K_PMOVE, K_PITER, K_N };
const char* kname(int, int c) {
    static const char* n[] = { "find", "find const", "contains", "count", "equal_range", "iterate", "iterate const", "iterate reverse", "bounds", "at", "size/empty", "compare with other shared", "copy construct from shared", "misc const",
        "private insert", "private erase", "private clear", "private rehash/resize", "private = shared", "private swap", "private move", "private iterate" };
    return c >= 0 && c < K_N ? n[c] : "?";
}
void kgen(Rng& r, Case& c) {
    c.params = { r.chance(1, 2) ? 0 : (int64_t)r.below(5), (int64_t)r.below(1ull << 40), (int64_t)r.below(4), r.chance(1, 8) ? 0 : r.range(1, 24) };
    c.threads.resize((size_t)r.range(2, 4));
    bool priv = r.chance(1, 2);
    for (auto& t : c.threads) {
        int m = (int)r.range(1, 5);
        for (int i = 0; i < m; ++i) {
            Op o; o.code = priv && r.chance(1, 2) ? (int)r.range(K_NSHARED, K_N - 1) : (int)r.below(K_NSHARED);
            o.a = (int64_t)r.below(28); o.b = (int64_t)r.below(16); o.c = (int64_t)r.below(1000);
            t.push_back(o);
        }
    }
}

// ---- associative containers
using Vals = std::vector<std::pair<int64_t, int64_t>>;   // sorted
template<class C, bool MAP, bool ORD, bool MULTI> struct Assoc {
    static int64_t kof(const typename C::value_type& v) { if constexpr (MAP) return val(v.first); else return val(v); }
    static int64_t vof(const typename C::value_type& v) { if constexpr (MAP) return val(v.second); else return 0; }
    static void ins(C& c, int64_t k, int64_t v) { if constexpr (MAP) c.emplace(Obj(k), Obj(v)); else c.insert(Obj(k)); }
    static void minsert(Vals& m, int64_t k, int64_t v) {
        if (!MAP) v = 0;
        auto it = std::upper_bound(m.begin(), m.end(), k, [](int64_t a, const std::pair<int64_t, int64_t>& b) { return a < b.first; });
        if (!MULTI && it != m.begin() && std::prev(it)->first == k) return;
        m.insert(it, { k, v });
    }
    static size_t merase(Vals& m, int64_t k) { size_t n = m.size(); m.erase(std::remove_if(m.begin(), m.end(), [&](auto& p) { return p.first == k; }), m.end()); return n - m.size(); }
    static size_t mcount(const Vals& m, int64_t k) { size_t n = 0; for (auto& p : m) n += p.first == k; return n; }
    template<class X> static Vals dump(X& c, bool rev = false) {
        Vals v;
        auto add = [&](const typename C::value_type& e) { int64_t a = kof(e), b = vof(e); Ignore g; v.push_back({ a, b }); };
        if constexpr (ORD) { if (rev) { for (auto it = c.rbegin(); it != c.rend(); ++it) add(*it); Ignore g; std::reverse(v.begin(), v.end()); return v; } }
        for (auto it = c.begin(); it != c.end(); ++it) add(*it);
        Ignore g;
        if (!ORD) std::sort(v.begin(), v.end());
        return v;
    }
    static void same(Vals v, Vals m, int code) {
        if (!ORD) std::sort(m.begin(), m.end());
        if (v != m) fail("model", "%s showed %zu elements that are not the %zu expected ones", kname(0, code), v.size(), m.size());
    }
    C* sh[2]; Vals ms[2];
    struct Priv { C* c[2]; Vals m[2]; } pv[9];
    void op(int tid, const Op& o) {
        Priv& P = pv[tid];
        int s = (int)(o.b & 1), p = (int)(o.b >> 1 & 1);
        C& x = *sh[s]; const C& cx = x; const Vals& m = ms[s];
        bool has = mcount(m, o.a) != 0;
        int64_t first = -1; for (auto& q : m) if (q.first == o.a) { first = q.second; break; }
        int64_t tr = 0;
        {
            Active act;
            Obj k(o.a);
            switch (o.code) {
            case K_FIND: { auto it = x.find(k); if ((it != x.end()) != has) fail("model", "find is wrong"); if (has) { if (kof(*it) != o.a || (!MULTI && vof(*it) != first)) fail("model", "find returned another element"); } tr = has; break; }
            case K_CFIND: { auto it = cx.find(k); if ((it != cx.end()) != has) fail("model", "find is wrong"); if (has) { if (kof(*it) != o.a || (!MULTI && vof(*it) != first)) fail("model", "find returned another element"); } tr = has; break; }
            case K_CONTAINS: if (cx.contains(k) != has) fail("model", "contains is wrong"); tr = has; break;
            case K_COUNT: if (cx.count(k) != mcount(m, o.a)) fail("model", "count is wrong"); break;
            case K_EQRANGE: { auto r = cx.equal_range(k); size_t n = 0; for (auto it = r.first; it != r.second; ++it) { if (kof(*it) != o.a) fail("model", "equal_range holds another key"); ++n; } if (n != mcount(m, o.a)) fail("model", "equal_range is wrong"); break; }
            case K_ITER: { auto v = dump(x); Ignore g; same(v, m, o.code); break; }
            case K_CITER: { auto v = dump(cx); Ignore g; same(v, m, o.code); break; }
            case K_REV: { auto v = dump(cx, true); Ignore g; same(v, m, o.code); break; }
            case K_BOUNDS: if constexpr (ORD) {
                auto lo = cx.lower_bound(k), hi = cx.upper_bound(k);
                size_t a = 0, b = 0; for (auto& q : m) { a += q.first < o.a; b += q.first <= o.a; }
                if ((size_t)std::distance(cx.begin(), lo) != a || (size_t)std::distance(cx.begin(), hi) != b) fail("model", "bounds are wrong");
            } else { if ((cx.begin() == cx.end()) != m.empty()) fail("model", "begin()==end() is wrong"); } break;
            case K_AT: if constexpr (MAP && !MULTI) { bool got = false; try { int64_t v = val(cx.at(k)); got = true; if (v != first) fail("model", "at() is wrong"); } catch (const std::out_of_range&) {} if (got != has) fail("model", "at() is wrong"); } break;
            case K_SIZE: if (cx.size() != m.size() || cx.empty() != m.empty()) fail("model", "size() is wrong"); tr = (int64_t)m.size(); break;
            case K_EQ: { bool e; { Ignore g; Vals a = ms[0], b = ms[1]; if (!ORD) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); } e = a == b; } if ((*sh[0] == *sh[1]) != e || (*sh[0] != *sh[1]) == e) fail("model", "comparison is wrong"); break; }
            case K_COPY: { C* t = sim_new<C>(cx); auto v = dump(*t); { Ignore g; same(v, m, o.code); } sim_delete(t); break; }
            case K_MISC: { if constexpr (!ORD) { volatile size_t sink = cx.bucket_count() + cx.capacity(); volatile float lf = cx.load_factor(); (void)sink; (void)lf; (void)cx.hash_function(); } else { (void)cx.key_comp(); if (cx.size()) { if (kof(*cx.begin()) != m.front().first || kof(*cx.rbegin()) != m.back().first) fail("model", "first or last element is wrong"); } } (void)cx.max_size(); (void)cx.get_allocator(); break; }
            case K_PINS: ins(*P.c[p], o.a, o.c); { Ignore g; minsert(P.m[p], o.a, o.c); } break;
            case K_PERASE: { size_t n = P.c[p]->erase(k), e; { Ignore g; e = merase(P.m[p], o.a); } if (n != e) fail("model", "erase returned %zu", n); break; }
            case K_PCLEAR: P.c[p]->clear(); { Ignore g; P.m[p].clear(); } break;
            case K_PREHASH: if constexpr (!ORD) { if (o.c & 1) P.c[p]->rehash(0); else P.c[p]->reserve((size_t)(o.c % 40)); } else { auto it = P.c[p]->begin(); if (it != P.c[p]->end()) { P.c[p]->erase(it); Ignore g; P.m[p].erase(P.m[p].begin()); } } break;
            case K_PASSIGN: *P.c[p] = cx; { Ignore g; P.m[p] = m; } break;
            case K_PSWAP: if (o.c & 1) P.c[0]->swap(*P.c[1]); else { using std::swap; swap(*P.c[0], *P.c[1]); } { Ignore g; std::swap(P.m[0], P.m[1]); } break;
            case K_PMOVE: *P.c[p] = std::move(*P.c[1 - p]); P.c[1 - p]->clear(); { Ignore g; P.m[p] = P.m[1 - p]; P.m[1 - p].clear(); } break;
            case K_PITER: break;
            }
            if (o.code >= K_NSHARED) for (int q = 0; q < 2; ++q) { auto v = dump(*P.c[q]); Ignore g; same(v, P.m[q], o.code); }
        }
        trace_op(tid, o.code, tr);
    }
    void run(const Case& c) {
        g_hash_mode = (int)c.params[0];
        int n = (int)c.threads.size();
        Rng r((uint64_t)c.params[1]);
        {
            Active a;
            for (int q = 0; q < 2; ++q) {
                sh[q] = sim_new<C>(); { Ignore g; ms[q].clear(); }
                if (q == 1 && (c.params[2] & 1)) { *sh[1] = *sh[0]; Ignore g; ms[1] = ms[0]; continue; }
                for (int64_t i = 0; i < c.params[3]; ++i) { int64_t k = (int64_t)r.below(28), v = (int64_t)r.below(100); ins(*sh[q], k, v); { Ignore g; minsert(ms[q], k, v); } if (r.chance(1, 4)) { k = (int64_t)r.below(28); sh[q]->erase(Obj(k)); Ignore g; merase(ms[q], k); } }
            }
            for (int t = 1; t <= n; ++t) for (int q = 0; q < 2; ++q) {
                int w = (int)r.below(4);
                Vals mm; { Ignore g; mm = ms[q]; }
                if (w == 0) { pv[t].c[q] = sim_new<C>(); Ignore g; mm.clear(); }
                else if (w == 1) pv[t].c[q] = sim_new<C>(*sh[q]);
                else if (w == 2) { C* tmp = sim_new<C>(*sh[q]); pv[t].c[q] = sim_new<C>(std::move(*tmp)); sim_delete(tmp); }
                else { C* tmp = sim_new<C>(*sh[q]); pv[t].c[q] = sim_new<C>(); pv[t].c[q]->swap(*tmp); sim_delete(tmp); }
                Ignore g; pv[t].m[q] = mm;
            }
        }
        run_threads(n, [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) op(tid, o); });
        Active a;
        for (int q = 0; q < 2; ++q) { auto v = dump(*sh[q]); { Ignore g; same(v, ms[q], K_CITER); ms[q] = Vals(); } sim_delete(sh[q]); }
        for (int t = 1; t <= n; ++t) for (int q = 0; q < 2; ++q) { sim_delete(pv[t].c[q]); Ignore g; pv[t].m[q] = Vals(); }
    }
};
template<class T> void arun(const Case& c) { static T* t = new T(); t->run(c); }

// ---- sequences
template<class C> struct Seq {
    static constexpr bool BITS = std::is_same_v<C, gtl::bit_vector>;
    using M = std::vector<int64_t>;
    static int64_t at(const C& c, size_t i) { if constexpr (BITS) return c[i]; else return val(c[i]); }
    static void push(C& c, int64_t v) { if constexpr (BITS) { size_t n = c.size(); c.resize(n + 1); if (v & 1) c.set(n); } else c.push_back(typename C::value_type(v)); }
    static int64_t norm(int64_t v) { return BITS ? v & 1 : v; }
    static void same(const C& c, const M& m, int code) {
        if (c.size() != m.size()) fail("model", "%s: size() is %zu, should be %zu", kname(0, code), c.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i) if (at(c, i) != m[i]) fail("model", "%s: element %zu is wrong", kname(0, code), i);
    }
    C* sh[2]; M ms[2];
    struct Priv { C* c[2]; M m[2]; } pv[9];
    void op(int tid, const Op& o) {
        Priv& P = pv[tid];
        int s = (int)(o.b & 1), p = (int)(o.b >> 1 & 1);
        C& x = *sh[s]; const C& cx = x; const M& m = ms[s];
        size_t i = m.empty() ? 0 : (size_t)o.a % m.size();
        {
            Active act;
            switch (o.code) {
            case K_FIND: if constexpr (BITS) { size_t e = (size_t)-1, st = m.empty() ? 0 : (size_t)o.a % m.size(); for (size_t q = st; q < m.size(); ++q) if (m[q]) { e = q; break; } if (!m.empty() && cx.find_next(st) != e) fail("model", "find_next is wrong"); } else if (!m.empty() && val(x[i]) != m[i]) fail("model", "element is wrong"); break;
            case K_CFIND: case K_AT: if (!m.empty() && at(cx, i) != m[i]) fail("model", "element is wrong"); break;
            case K_COUNT: if constexpr (BITS) { size_t n = 0; for (auto v : m) n += (size_t)v; if (cx.count() != n || cx.any() != (n != 0) || cx.none() != (n == 0) || cx.every() != (n == m.size())) fail("model", "count is wrong"); } break;
            case K_CONTAINS: if constexpr (BITS) { if (ms[0].size() == ms[1].size()) { bool in = true, is = false; for (size_t q = 0; q < ms[0].size(); ++q) { in &= ms[0][q] || !ms[1][q]; is |= ms[0][q] && ms[1][q]; } if (sh[0]->contains(*sh[1]) != in || sh[0]->disjoint(*sh[1]) != !is) fail("model", "contains/disjoint is wrong"); } } break;
            case K_BOUNDS: if constexpr (BITS) { if (!m.empty()) { auto v = cx.view(i / 2, i); size_t n = 0; for (size_t q = i / 2; q < i; ++q) n += (size_t)m[q]; if (v.count() != n) fail("model", "count of a view is wrong"); } } else if (!m.empty() && (val(cx.front()) != m.front() || val(cx.back()) != m.back())) fail("model", "front/back is wrong"); break;
            case K_EQRANGE: case K_ITER: if constexpr (!BITS) { size_t q = 0; for (auto it = x.begin(); it != x.end(); ++it, ++q) if (val(*it) != m[q]) fail("model", "iteration is wrong"); if (q != m.size()) fail("model", "iteration is wrong"); } break;
            case K_CITER: same(cx, m, o.code); break;
            case K_REV: if constexpr (!BITS) { size_t q = m.size(); for (auto it = cx.rbegin(); it != cx.rend(); ++it) if (val(*it) != m[--q]) fail("model", "reverse iteration is wrong"); } break;
            case K_SIZE: if (cx.size() != m.size() || cx.empty() != m.empty()) fail("model", "size() is wrong"); break;
            case K_EQ: { bool e = ms[0] == ms[1]; if ((*sh[0] == *sh[1]) != e) fail("model", "comparison is wrong"); break; }
            case K_COPY: { C* t = sim_new<C>(cx); same(*t, m, o.code); sim_delete(t); break; }
            case K_MISC: if constexpr (BITS) { if (ms[0].size() == ms[1].size()) { C t = *sh[0] | *sh[1]; for (size_t q = 0; q < t.size(); ++q) if ((int64_t)t[q] != (ms[0][q] | ms[1][q])) fail("model", "operator| is wrong"); } } else { volatile size_t sink = cx.capacity() + cx.max_size(); const void* volatile d = cx.data(); (void)sink; (void)d; } break;
            case K_PINS: push(*P.c[p], o.c); { Ignore g; P.m[p].push_back(norm(o.c)); } break;
            case K_PERASE: if (!P.m[p].empty()) { if constexpr (BITS) { size_t q = (size_t)o.a % P.m[p].size(); P.c[p]->flip(q); P.m[p][q] ^= 1; } else { size_t q = (size_t)o.a % P.m[p].size(); P.c[p]->erase(P.c[p]->begin() + (ptrdiff_t)q); Ignore g; P.m[p].erase(P.m[p].begin() + (ptrdiff_t)q); } } break;
            case K_PCLEAR: P.c[p]->resize(0); { Ignore g; P.m[p].clear(); } break;
            case K_PREHASH: { size_t z = (size_t)(o.c % 100); P.c[p]->resize(z); Ignore g; P.m[p].resize(z); break; }
            case K_PASSIGN: *P.c[p] = cx; { Ignore g; P.m[p] = m; } break;
            case K_PSWAP: { using std::swap; swap(*P.c[0], *P.c[1]); } { Ignore g; std::swap(P.m[0], P.m[1]); } break;
            case K_PMOVE: *P.c[p] = std::move(*P.c[1 - p]); P.c[1 - p]->resize(0); { Ignore g; P.m[p] = P.m[1 - p]; P.m[1 - p].clear(); } break;
            }
            if (o.code >= K_NSHARED) for (int q = 0; q < 2; ++q) same(*P.c[q], P.m[q], o.code);
        }
        trace_op(tid, o.code, (int64_t)m.size());
    }
    void run(const Case& c) {
        int n = (int)c.threads.size();
        Rng r((uint64_t)c.params[1]);
        {
            Active a;
            for (int q = 0; q < 2; ++q) {
                sh[q] = sim_new<C>(); { Ignore g; ms[q].clear(); }
                if (q == 1 && (c.params[2] & 1)) { *sh[1] = *sh[0]; Ignore g; ms[1] = ms[0]; continue; }
                for (int64_t i = 0; i < c.params[3] * (BITS ? 6 : 1); ++i) { int64_t v = (int64_t)r.below(100); push(*sh[q], v); Ignore g; ms[q].push_back(norm(v)); }
            }
            for (int t = 1; t <= n; ++t) for (int q = 0; q < 2; ++q) { bool e = r.chance(1, 3); pv[t].c[q] = e ? sim_new<C>() : sim_new<C>(*sh[q]); Ignore g; pv[t].m[q] = e ? M() : ms[q]; }
        }
        run_threads(n, [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) op(tid, o); });
        Active a;
        for (int q = 0; q < 2; ++q) { same(*sh[q], ms[q], K_CITER); { Ignore g; ms[q] = M(); } sim_delete(sh[q]); }
        for (int t = 1; t <= n; ++t) for (int q = 0; q < 2; ++q) { sim_delete(pv[t].c[q]); Ignore g; pv[t].m[q] = M(); }
    }
};
#define CH(NAME, ...) Harness h_##NAME{ "const_" #NAME, kgen, arun<__VA_ARGS__>, kname, nullptr }; Reg r_##NAME(&h_##NAME);
using H = HashK<Obj>; using E = EqK<Obj>; using L = LessK<Obj>;
using PA = std::allocator<std::pair<const Obj, Obj>>;
CH(fm, Assoc<gtl::flat_hash_map<Obj, Obj, H, E>, true, false, false>)
CH(ns, Assoc<gtl::node_hash_set<Obj, H, E>, false, false, false>)
CH(pf, Assoc<gtl::parallel_flat_hash_map<Obj, Obj, H, E, PA, 2, gtl::NullMutex>, true, false, false>)
CH(pn, Assoc<gtl::parallel_node_hash_map<Obj, Obj, H, E, PA, 1, gtl::NullMutex>, true, false, false>)
CH(bm, Assoc<gtl::btree_map<Obj, Obj, L>, true, true, false>)
CH(bs, Assoc<gtl::btree_multiset<Obj, L>, false, true, true>)
CH(ve, Seq<gtl::vector<Obj>>)
CH(vi, Seq<gtl::vector<int64_t>>)
CH(bv, Seq<gtl::bit_vector>)
}
