// Harness for gtl::vector: random histories over the whole API on three vectors, with failing
// allocations, throwing element constructors and throwing input iterators, refined against
// plain sequences of numbers.
#pragma once
#include "elem.h"
#include "gtl/vector.hpp"
#include <algorithm>
#include <iterator>
#include <list>
#include <memory>
#include <stdexcept>

namespace sim {

enum VecOp : int {
    VO_PUSH_C, VO_PUSH_R, VO_EMPLACE_BACK, VO_PUSH_SELF, VO_POP, VO_INS_C, VO_INS_R, VO_INS_N, VO_INS_FWD, VO_INS_IN, VO_INS_IL, VO_INS_MOVE, VO_EMPLACE, VO_INS_SELF, VO_INS_SELF_R, VO_INS_N_SELF, VO_EMPLACE_SELF,
    VO_ERASE, VO_ERASE_RANGE, VO_ERASE_VAL, VO_ERASE_IF, VO_RESIZE, VO_RESIZE_V, VO_RESIZE_SELF, VO_RESERVE, VO_RESERVE_FILL, VO_SHRINK, VO_COMPACT, VO_CLEAR,
    VO_ASSIGN_N, VO_ASSIGN_N_SELF, VO_ASSIGN_FWD, VO_ASSIGN_IN, VO_ASSIGN_IL, VO_ASSIGN_PTR, VO_COPY, VO_COPY_AL, VO_COPY_ASSIGN, VO_MOVE, VO_MOVE_AL, VO_MOVE_ASSIGN, VO_SELF_ASSIGN, VO_SWAP,
    VO_CTOR_N, VO_CTOR_NV, VO_CTOR_FWD, VO_CTOR_IN, VO_CTOR_IL, VO_AT, VO_COMPARE, VO_ACCESS, VO_WRITE, VO_RELINQUISH, VO_FILL,
    VO_COUNT_
};
inline const char* vec_opname(int, int c) {
    static const char* n[] = { "push_back(const&)", "push_back(&&)", "emplace_back", "push_back(own element)", "pop_back", "insert(pos,const&)", "insert(pos,&&)", "insert(pos,n,v)", "insert(pos,forward range)", "insert(pos,input range)", "insert(pos,init_list)", "insert(pos,move range)", "emplace(pos)", "insert(pos,own element)", "insert(pos,move(own element))", "insert(pos,n,own element)", "emplace(pos,own element)",
        "erase(pos)", "erase(range)", "erase(v,value)", "erase_if", "resize(n)", "resize(n,v)", "resize(n,own element)", "reserve", "reserve+fill", "shrink_to_fit", "compactResize", "clear",
        "assign(n,v)", "assign(n,own element)", "assign(forward range)", "assign(input range)", "assign(init_list)", "assign(pointers)", "copy ctor", "copy ctor(alloc)", "copy assign", "move ctor", "move ctor(alloc)", "move assign", "self assign", "swap",
        "ctor(n)", "ctor(n,v)", "ctor(forward range)", "ctor(input range)", "ctor(init_list)", "at", "comparison", "access", "write", "relinquish+attach", "fill" };
    return c >= 0 && c < VO_COUNT_ ? n[c] : "?";
}

struct Big { int64_t a, b, c; bool operator==(const Big& o) const { return a == o.a && b == o.b && c == o.c; } bool operator<(const Big& o) const { return a < o.a; } };   // trivially copyable, too big to pass by value
inline int64_t val(const Big& b) { if ((b.a || b.b || b.c) && (b.b != b.a + 1 || b.c != ~b.a)) fail("model", "torn element (%lld,%lld,%lld)", (long long)b.a, (long long)b.b, (long long)b.c); return b.a; }
// an element whose moves can fail as well: what std::vector copies for safety has to be copied
struct TObj : Obj {
    static Obj& may(Obj& o) { if (t_active > 0 && fault_event(F_CTOR)) throw Injected{ F_CTOR }; return o; }
    TObj() = default;
    TObj(int64_t v) : Obj(v) {}
    TObj(const TObj&) = default;
    TObj(TObj&& o) noexcept(false) : Obj(std::move(may(o))) {}
    TObj& operator=(const TObj&) = default;
    TObj& operator=(TObj&& o) noexcept(false) { Obj::operator=(std::move(may(o))); return *this; }
};
template<class T> T mkT(int64_t v);
template<> inline TObj mkT<TObj>(int64_t v) { return TObj(v); }
template<> inline Obj mkT<Obj>(int64_t v) { return Obj(v); }
template<> inline int64_t mkT<int64_t>(int64_t v) { return v; }
template<> inline uint8_t mkT<uint8_t>(int64_t v) { return (uint8_t)v; }
template<> inline Big mkT<Big>(int64_t v) { return Big{ v, v + 1, ~v }; }

// single-pass iterator; the sequence is gone once read; reading can fail
template<class T> struct InIt {
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = ptrdiff_t; using pointer = const T*; using reference = const T&;
    struct St { const std::vector<T>* v; size_t pos; };
    St* st; size_t at;
    const T& operator*() const { if (at != st->pos) fail("misuse", "an input iterator was read after it was advanced past"); if (fault_event(F_CALL)) throw Injected{ F_CALL }; return (*st->v)[at]; }
    InIt& operator++() { if (at != st->pos) fail("misuse", "a stale copy of an input iterator was advanced"); ++st->pos; at = st->pos; return *this; }
    InIt operator++(int) { InIt r = *this; ++*this; return r; }
    bool operator==(const InIt& o) const { return at == o.at; }
    bool operator!=(const InIt& o) const { return at != o.at; }
};

template<class T, class A, bool SALLOC>
struct SeqVec {
    using C = gtl::vector<T, A>;
    using Model = std::vector<int64_t>;
    static constexpr int NC = 3;
    C*      c[NC];
    Model   m[NC];
    int     al[NC];
    size_t  room[NC];    // reserved capacity still promised
    const Op* cur = nullptr;
    int     nal = 0;
    static constexpr bool TRIV = std::is_trivially_copyable_v<T>;
    static constexpr bool TMOVE = std::is_same_v<T, TObj>;   // moves can fail
    static int64_t lim(int64_t v) { if constexpr (sizeof(T) == 1) return (int64_t)(uint8_t)v; else return v; }
    static int64_t zero() { return 0; }

    const char* on() { return vec_opname(0, cur->code); }
    A mkalloc(int id) { if constexpr (SALLOC) return A(id); else { (void)id; return A(); } }

    void observe(int i) {
        Active a;
        C& x = *c[i];
        const C& cx = x;
        size_t n = m[i].size();
        if (x.size() != n) fail("model", "after %s: vector %d has size() %zu, should be %zu", on(), i, (size_t)x.size(), n);
        if (x.empty() != (n == 0)) fail("model", "after %s: empty() of vector %d is wrong", on(), i);
        if (x.capacity() < n) fail("model", "after %s: capacity() %zu below size() %zu", on(), (size_t)x.capacity(), n);
        size_t q = 0;
        for (auto it = cx.begin(); it != cx.end(); ++it, ++q) if (val(*it) != m[i][q]) fail("model", "after %s: vector %d holds %lld at index %zu, should be %lld", on(), i, (long long)val(*it), q, (long long)m[i][q]);
        q = n;
        for (auto it = cx.rbegin(); it != cx.rend(); ++it) { --q; if (val(*it) != m[i][q]) fail("model", "after %s: reverse iteration of vector %d is wrong at %zu", on(), i, q); }
        q = n;
        for (auto it = cx.crbegin(); it != cx.crend(); ++it) { --q; if (val(*it) != m[i][q]) fail("model", "after %s: const reverse iteration of vector %d is wrong at %zu", on(), i, q); }
        if (q != 0) fail("model", "after %s: crbegin()..crend() of vector %d stops early", on(), i);
        if (x.rend() - x.rbegin() != (ptrdiff_t)n || x.cend() - x.cbegin() != (ptrdiff_t)n) fail("model", "after %s: an iterator range of vector %d has the wrong length", on(), i);
        if (x.max_size() < x.capacity()) fail("model", "after %s: max_size() below capacity()", on());
        if constexpr (SALLOC) if (x.get_allocator().id != al[i]) fail("allocator", "after %s: vector %d uses allocator %d, should be %d", on(), i, x.get_allocator().id, al[i]);
    }
    // valid but unspecified; first `keep` elements must be unchanged; then make it well known again
    void unspecified(int i, size_t keep, const Model& allowed) {
        Active a;
        C& x = *c[i];
        if (x.size() > x.capacity()) fail("model", "after %s: size() above capacity()", on());
        if (x.size() < keep) fail("failed-op", "a failed %s lost elements before the position: %zu left of %zu", on(), (size_t)x.size(), keep);
        for (size_t q = 0; q < x.size(); ++q) {
            if constexpr (std::is_base_of_v<Obj, T>) { obj_alive(&x[q], "read"); if (q >= keep && !x[q].heap) continue; }
            int64_t v = val(x[q]);
            if (q < keep && v != m[i][q]) fail("failed-op", "a failed %s changed index %zu before the position", on(), q);
            Ignore g;
            if (std::find(allowed.begin(), allowed.end(), v) == allowed.end()) fail("failed-op", "after a failed %s vector %d holds %lld, which was never there", on(), i, (long long)v);
        }
        x.resize(keep);
        Ignore g;
        m[i].resize(keep);
    }
    void moved_from(int i) {
        Active a;
        C& x = *c[i];
        if (x.size() > x.capacity()) fail("model", "after %s: moved-from vector has size() above capacity()", on());
        for (size_t q = 0; q < x.size(); ++q) if constexpr (std::is_base_of_v<Obj, T>) obj_alive(&x[q], "read");
        x.clear();
        Ignore g;
        m[i].clear();
    }

    void step(const Op& op) {
        cur = &op;
        int i = (int)(op.b & 0xff) % NC, j = (int)((op.b >> 8) & 0xff) % NC;
        int64_t aux = (op.b >> 16) & 0xffff, w = op.c;
        C& x = *c[i];
        Model t = m[i], allowed = m[i];
        size_t sz = t.size();
        size_t pos = sz ? ((op.a & 7) == 0 ? 0 : (op.a & 7) == 1 ? sz : (op.a & 7) == 2 ? sz - 1 : (size_t)(op.a >> 3) % (sz + 1)) : 0;
        size_t own = sz ? (size_t)aux % sz : 0;
        size_t cnt = (size_t)(aux % (aux % 7 == 0 ? 40 : 6));
        std::unique_ptr<T> v(new T(mkT<T>(w))), v2(new T(mkT<T>(w)));
        w = val(*v);
        allowed.push_back(w);
        std::vector<T> rng; Model rm;
        std::list<T> lst;
        rng.reserve(cnt);
        for (size_t q = 0; q < cnt; ++q) { rng.push_back(mkT<T>(w + 1 + (int64_t)q)); rm.push_back(val(rng.back())); allowed.push_back(rm.back()); }
        if (op.code == VO_INS_FWD || op.code == VO_ASSIGN_FWD || op.code == VO_CTOR_FWD) for (auto& e : rng) lst.push_back(e);
        allowed.push_back(zero());
        typename InIt<T>::St ist{ &rng, 0 };
        InIt<T> i0{ &ist, 0 }, i1{ &ist, cnt };
        auto ins = [&](size_t p, size_t n, int64_t e) { Ignore g; t.insert(t.begin() + (long)p, n, e); };
        auto insr = [&](size_t p) { Ignore g; t.insert(t.begin() + (long)p, rm.begin(), rm.end()); };
        auto at = [&](auto it, size_t p) { if ((size_t)(it - x.begin()) != p) fail("model", "%s returned an iterator to index %zd, should be %zu", on(), (ptrdiff_t)(it - x.begin()), p); };
        bool threw = false, mf_i = false, mf_j = false, keepbuf = true, noalloc = false;
        size_t capb; const T* datab;
        { Active a; capb = x.capacity(); datab = x.data(); }
        C* fresh = nullptr; Model nm; int nal_ = 0;
        arm(op);
        try {
            Active act;
            auto P = x.begin() + (ptrdiff_t)pos;
            switch (op.code) {
            case VO_PUSH_C: x.push_back(*v); ins(sz, 1, w); break;
            case VO_PUSH_R: x.push_back(std::move(*v)); ins(sz, 1, w); break;
            case VO_EMPLACE_BACK: { auto& r = x.emplace_back(std::is_base_of_v<Obj, T> ? mkT<T>(w) : *v); if (&r != &x.back() || val(r) != w) fail("model", "emplace_back returned a reference to something else"); ins(sz, 1, w); break; }
            case VO_PUSH_SELF: if (sz) { x.push_back(x[own]); ins(sz, 1, t[own]); } break;
            case VO_POP: if (sz) { x.pop_back(); Ignore g; t.pop_back(); } break;
            case VO_INS_C: at(x.insert(P, *v), pos); ins(pos, 1, w); break;
            case VO_INS_R: at(x.insert(P, std::move(*v)), pos); ins(pos, 1, w); break;
            case VO_INS_N: at(x.insert(P, cnt, *v), pos); ins(pos, cnt, w); break;
            case VO_INS_FWD: at(x.insert(P, lst.begin(), lst.end()), pos); insr(pos); break;
            case VO_INS_IN: at(x.insert(P, i0, i1), pos); insr(pos); break;
            case VO_INS_IL: at(x.insert(P, { *v, *v2 }), pos); ins(pos, 2, w); break;
            case VO_INS_MOVE: at(x.insert(P, std::make_move_iterator(rng.data()), std::make_move_iterator(rng.data() + cnt)), pos); insr(pos); break;
            case VO_EMPLACE: at(x.emplace(P, *v), pos); ins(pos, 1, w); break;
            case VO_INS_SELF: if (sz) { at(x.insert(P, x[own]), pos); ins(pos, 1, t[own]); } break;
            case VO_INS_SELF_R: if (sz) {   // the moved-from element stays where it was (shifted); give it a value again
                int64_t e = t[own];
                size_t src = own < pos ? own : own + 1;
                at(x.insert(P, std::move(x[own])), pos);
                { Ignore g; t.insert(t.begin() + (long)pos, e); disarm(); t[src] = lim(w + 5); }
                x[src] = mkT<T>(t[src]);
                break; }
            case VO_INS_N_SELF: if (sz) { at(x.insert(P, cnt, x[own]), pos); int64_t e = t[own]; ins(pos, cnt, e); } break;
            case VO_EMPLACE_SELF: if (sz) { at(x.emplace(P, x[own]), pos); int64_t e = t[own]; ins(pos, 1, e); } break;
            case VO_ERASE: noalloc = !TMOVE; if (pos < sz) { at(x.erase(P), pos); Ignore g; t.erase(t.begin() + (long)pos); } break;
            case VO_ERASE_RANGE: { noalloc = !TMOVE; size_t n = std::min(cnt, sz - pos); at(x.erase(P, P + (ptrdiff_t)n), pos); Ignore g; t.erase(t.begin() + (long)pos, t.begin() + (long)(pos + n)); break; }
            case VO_ERASE_VAL: if (sz && !std::is_base_of_v<Obj, T>) { T e = x[own]; gtl::erase(x, e); Ignore g; int64_t ev = t[own]; t.erase(std::remove(t.begin(), t.end(), ev), t.end()); } break;
            case VO_ERASE_IF: { noalloc = !TMOVE; int64_t md = 2 + (aux & 3); gtl::erase_if(x, [&](const T& e) { return val(e) % md == 0; }); Ignore g; t.erase(std::remove_if(t.begin(), t.end(), [&](int64_t e) { return e % md == 0; }), t.end()); break; }
            case VO_RESIZE: { size_t n = (size_t)(aux % (sz + cnt + 2)); x.resize(n); Ignore g; t.resize(n, zero()); break; }
            case VO_RESIZE_V: { size_t n = (size_t)(aux % (sz + cnt + 2)); x.resize(n, *v); Ignore g; t.resize(n, w); break; }
            case VO_RESIZE_SELF: if (sz) { size_t n = sz + cnt; x.resize(n, x[own]); Ignore g; t.resize(n, int64_t(t[own])); } break;
            case VO_RESERVE: { size_t n = (size_t)(aux % 70); x.reserve(n); keepbuf = n <= capb; if (x.capacity() < n) fail("model", "reserve(%zu) gave capacity %zu", n, (size_t)x.capacity()); Ignore g; room[i] = std::max(room[i], n); break; }
            case VO_RESERVE_FILL: {
                size_t n = sz + cnt + (size_t)(aux & 15); x.reserve(n); keepbuf = n <= capb;
                const T* d = x.data();
                while (x.size() < n) { x.push_back(*v); Ignore g; t.push_back(w); if (0) break; }
                if (n && x.data() != d) fail("stability", "push_back moved the elements although reserve(%zu) covered it", n);
                break; }
            case VO_SHRINK: x.shrink_to_fit(); keepbuf = false; if (!fault_fired() && x.capacity() != sz && (x.capacity() > capb)) fail("model", "shrink_to_fit grew the vector"); break;
            case VO_COMPACT: { size_t n = sz ? (size_t)aux % (sz + 1) : 0; compactResize(&x, n); keepbuf = false; Ignore g; t.resize(n); break; }
            case VO_CLEAR: noalloc = true; x.clear(); { Ignore g; t.clear(); } break;
            case VO_ASSIGN_N: x.assign(cnt, *v); { Ignore g; t.assign(cnt, w); } break;
            case VO_ASSIGN_N_SELF: if (sz) { x.assign(cnt, x[own]); Ignore g; int64_t e = t[own]; t.assign(cnt, e); } break;
            case VO_ASSIGN_FWD: x.assign(lst.begin(), lst.end()); { Ignore g; t = rm; } break;
            case VO_ASSIGN_IN: x.assign(i0, i1); { Ignore g; t = rm; } break;
            case VO_ASSIGN_IL: if (aux & 1) x = { *v, *v2, *v }; else x.assign({ *v, *v2, *v }); { Ignore g; t.assign(3, w); } break;
            case VO_ASSIGN_PTR: x.assign((const T*)rng.data(), (const T*)rng.data() + cnt); { Ignore g; t = rm; } break;
            case VO_COPY: fresh = sim_new<C>(std::as_const(x)); nal_ = SALLOC ? al[i] ^ 1 : al[i]; { Ignore g; nm = t; } break;
            case VO_COPY_AL: { int id = (aux & 1) ? al[i] : al[j]; fresh = sim_new<C>(std::as_const(x), mkalloc(id)); nal_ = id; Ignore g; nm = t; break; }
            case VO_COPY_ASSIGN: if (i != j) { keepbuf = false; x = std::as_const(*c[j]); Ignore g; t = m[j]; if constexpr (SALLOC) if (A::propagate_on_container_copy_assignment::value) al[i] = al[j]; } break;
            case VO_MOVE: { noalloc = true; const T* d = x.data(); fresh = sim_new<C>(std::move(x)); if (sz && fresh->data() != d) fail("stability", "move construction moved the elements"); if (!x.empty()) fail("model", "a vector is not empty after it was moved from"); nal_ = al[i]; mf_i = true; keepbuf = false; Ignore g; nm = t; break; }
            case VO_MOVE_AL: { int id = (aux & 1) ? al[i] : al[j]; fresh = sim_new<C>(std::move(x), mkalloc(id)); nal_ = id; mf_i = true; keepbuf = false; Ignore g; nm = t; break; }
            case VO_MOVE_ASSIGN:
                if (i != j) {
                    keepbuf = false;
                    bool steal = !SALLOC || al[i] == al[j];
                    if constexpr (SALLOC) steal = steal || A::propagate_on_container_move_assignment::value;
                    if (steal) noalloc = true;
                    const T* d = c[j]->data();
                    x = std::move(*c[j]);
                    if (steal && x.data() != d && !m[j].empty()) fail("stability", "move assignment moved the elements");
                    Ignore g; t = m[j]; mf_j = true;
                    if constexpr (SALLOC) if (A::propagate_on_container_move_assignment::value) { if (c[j]->get_allocator().id != al[j] && c[j]->get_allocator().id != al[i]) fail("allocator", "move assignment changed the source's allocator"); int o = al[i]; al[i] = al[j]; al[j] = c[j]->get_allocator().id; (void)o; }
                }
                break;
            case VO_SELF_ASSIGN: { C& y = x; noalloc = true; if (aux & 1) x = std::as_const(y); else { x.swap(y); } break; }
            case VO_SWAP:
                if (i != j) {
                    bool ok = !SALLOC || al[i] == al[j], pocs = false;
                    if constexpr (SALLOC) { pocs = A::propagate_on_container_swap::value; ok = ok || pocs; }
                    if (ok) {
                        noalloc = true; keepbuf = false;
                        const T* d = x.data(); const T* e = c[j]->data();
                        if (aux & 1) x.swap(*c[j]); else { using std::swap; swap(x, *c[j]); }
                        if (x.data() != e || c[j]->data() != d) fail("stability", "swap moved elements");
                        Ignore g; t = m[j]; m[j] = m[i]; if (pocs) std::swap(al[i], al[j]); std::swap(room[i], room[j]);
                    }
                }
                break;
            case VO_CTOR_N: nal_ = ++nal; fresh = sim_new<C>(cnt, mkalloc(nal_)); { Ignore g; nm.assign(cnt, zero()); } break;
            case VO_CTOR_NV: nal_ = ++nal; fresh = sim_new<C>(cnt, *v, mkalloc(nal_)); { Ignore g; nm.assign(cnt, w); } break;
            case VO_CTOR_FWD: nal_ = ++nal; fresh = sim_new<C>(lst.begin(), lst.end(), mkalloc(nal_)); { Ignore g; nm = rm; } break;
            case VO_CTOR_IN: nal_ = ++nal; fresh = sim_new<C>(i0, i1, mkalloc(nal_)); { Ignore g; nm = rm; } break;
            case VO_CTOR_IL: nal_ = ++nal; fresh = sim_new<C>(std::initializer_list<T>{ *v, *v2, *v }, mkalloc(nal_)); { Ignore g; nm.assign(3, w); } break;
            case VO_AT: {
                size_t n = (size_t)aux % (sz + 3); bool oor = false; int64_t g = 0;
                try { g = (op.a & 1) ? val(x.at(n)) : val(std::as_const(x).at(n)); } catch (const std::out_of_range&) { oor = true; }
                if (oor != (n >= sz)) fail("model", "at(%zu) with size %zu %s", n, sz, oor ? "threw" : "did not throw");
                if (!oor && g != t[n]) fail("model", "at(%zu) is %lld, should be %lld", n, (long long)g, (long long)t[n]);
                break; }
            case VO_COMPARE: {
                noalloc = true;
                C &a = x, &b = *c[j];
                if ((a == b) != (m[i] == m[j]) || (a != b) == (m[i] == m[j]) || (a < b) != (m[i] < m[j]) || (a > b) != (m[i] > m[j]) || (a <= b) != (m[i] <= m[j]) || (a >= b) != (m[i] >= m[j])) fail("model", "comparison of vectors %d and %d is wrong", i, j);
                break; }
            case VO_ACCESS: if (sz) { noalloc = true; if (val(x.front()) != t[0] || val(x.back()) != t[sz - 1] || val(x[own]) != t[own] || val(x.data()[own]) != t[own] || &x.front() != x.data()) fail("model", "element access is wrong"); } break;
            case VO_WRITE: if (sz) { x[own] = std::move(*v); Ignore g; t[own] = w; } break;
            case VO_RELINQUISH: if (capb) {
                noalloc = true;
                if constexpr (!SALLOC) if (aux & 1) {
                    std::unique_ptr<T> d(relinquish(x));
                    const T* was = d.get();
                    if (x.size() || x.capacity() || x.data()) fail("model", "relinquish left the vector non-empty");
                    fresh = sim_new<C>(std::move(d), sz, capb);
                    if (fresh->data() != was || fresh->capacity() != capb) fail("model", "a vector made from given data does not hold it");
                    Ignore g; nm = t; t.clear(); keepbuf = false;
                    break;
                }
                size_t s = x.size(), cp = x.capacity();
                T* p = relinquish(x);
                if (x.size() || x.capacity() || x.data()) fail("model", "relinquish left the vector non-empty");
                attach(x, p, s, cp);
                break; }
                break;
            case VO_FILL: for (int64_t q = 0; q < aux % 48 + (aux % 53 == 0 ? 600 : 0); ++q) { size_t cp = x.capacity(); x.push_back(mkT<T>(w + q)); Ignore g; t.push_back(lim(w + q)); if (cp >= 8 && x.capacity() > cp && x.capacity() < cp + cp / 4) fail("model", "push_back grew the capacity from %zu to %zu only: not amortised constant", cp, (size_t)x.capacity()); } break;
            }
        } catch (const Injected&) { threw = true; }
        catch (const std::bad_alloc&) { if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", on()); threw = true; }
        disarm();
        if (threw) {
            count("failed_ops");
            if (noalloc) fail("failed-op", "%s failed although it must not", on());
            switch (op.code) {
            case VO_SHRINK: case VO_CLEAR: fail("failed-op", "%s failed although it must not", on());
            case VO_INS_C: case VO_INS_R: case VO_INS_N: case VO_INS_FWD: case VO_INS_IL: case VO_INS_MOVE: case VO_EMPLACE: case VO_INS_SELF: case VO_INS_N_SELF: case VO_EMPLACE_SELF:
                if (pos == sz || sz == 0) break;   // insertion at the end: no effect
                unspecified(i, pos, allowed); break;
            case VO_INS_IN: case VO_ERASE: case VO_ERASE_RANGE: unspecified(i, pos, allowed); break;
            case VO_ERASE_IF: unspecified(i, 0, allowed); break;
            case VO_INS_SELF_R: unspecified(i, std::min(pos, own), allowed); break;   // the moved-from element may be lost
            case VO_ASSIGN_N: case VO_ASSIGN_N_SELF: case VO_ASSIGN_FWD: case VO_ASSIGN_IN: case VO_ASSIGN_IL: case VO_ASSIGN_PTR: unspecified(i, 0, allowed); room[i] = 0; break;
            case VO_COPY_ASSIGN: { if constexpr (SALLOC) al[i] = c[i]->get_allocator().id; Model al2 = allowed; al2.insert(al2.end(), m[j].begin(), m[j].end()); unspecified(i, 0, al2); room[i] = 0; break; }
            case VO_MOVE_ASSIGN: { Model al2 = allowed; al2.insert(al2.end(), m[j].begin(), m[j].end()); unspecified(i, 0, al2); moved_from(j); room[i] = 0; break; }
            case VO_MOVE_AL: moved_from(i); break;
            case VO_RESERVE_FILL: case VO_FILL: {   // some of the push_backs happened
                size_t n; { Active a; n = x.size(); }
                if (n < sz || n > t.size()) fail("failed-op", "a failed push_back left size %zu", n);
                t.resize(n); m[i] = t; break; }
            case VO_WRITE: unspecified(i, 0, allowed); break;
            default: break;   // strong guarantee
            }
        } else {
            m[i] = t;
            if (mf_i) { moved_from(i); room[i] = 0; }
            if (mf_j) { moved_from(j); room[j] = 0; }
            Active a;
            if (keepbuf && !fresh && t.size() <= capb && capb && x.data() != datab && x.capacity()) fail("stability", "%s moved the elements although the capacity %zu sufficed", on(), capb);
        }
        if (fresh) { { Active a; sim_delete(c[j]); } c[j] = fresh; m[j] = nm; al[j] = nal_; room[j] = 0; }
        trace_op(1, op.code, (int64_t)m[i].size() * 7 + threw);
        for (int q = 0; q < NC; ++q) observe(q);
    }

    void run(const Case& cs) {
        nal = 0;
        for (int i = 0; i < NC; ++i) { m[i].clear(); room[i] = 0; al[i] = SALLOC ? ++nal : 0; Active a; c[i] = sim_new<C>(mkalloc(al[i])); }
        if (SALLOC && cs.params[0]) { Active a; sim_delete(c[1]); c[1] = sim_new<C>(mkalloc(al[0])); al[1] = al[0]; }
        for (auto& o : cs.threads[0]) step(o);
        for (int i = 0; i < NC; ++i) { Active a; sim_delete(c[i]); }
        for (int i = 0; i < NC; ++i) m[i].clear();
    }
};

inline void vec_gen(Rng& r, Case& c, int which) {
    int w[VO_COUNT_]; for (int& x : w) x = 2;
    w[VO_FILL] = 6; w[VO_CLEAR] = 1; w[VO_ERASE_RANGE] = 3;
    int fp = which ? 50 : 8;
    c.params = { (int64_t)r.below(2) };
    c.threads.resize(1);
    int n = r.chance(1, 3) ? (int)r.range(16, 50) : (int)r.range(2, 14);
    int tot = 0; for (int x : w) tot += x;
    auto pick = [&]() { int x = (int)r.below((uint64_t)tot); for (int i = 0; i < VO_COUNT_; ++i) { if (x < w[i]) return i; x -= w[i]; } return 0; };
    std::vector<int> pool;
    if (r.chance(1, 2)) { int np = (int)r.range(2, 7); for (int i = 0; i < np; ++i) pool.push_back(pick()); pool.push_back(VO_FILL); }
    int nc = (int)r.range(1, 3);
    bool pre = r.chance(2, 3);
    for (int i = 0; i < n; ++i) {
        Op o;
        o.code = i == 0 && pre ? (int)VO_FILL : pool.empty() || r.chance(1, 4) ? pick() : pool[r.below(pool.size())];
        o.a = (int64_t)r.below(4096);
        o.b = (int64_t)r.below((uint64_t)nc) | ((int64_t)r.below((uint64_t)nc) << 8) | ((int64_t)r.below(65536) << 16);
        o.c = (int64_t)(i + 1) * 1000 + (int64_t)r.below(100);
        if (r.chance(fp, 100)) { int k = (int)r.below(5); o.fk = k < 2 ? F_ALLOC : k < 4 ? F_CTOR : F_CALL; o.fn = (int)r.range(1, r.chance(1, 3) ? 30 : 4); }
        c.threads[0].push_back(o);
    }
}
} // namespace sim

#define SEQVEC(NAME, T, A, SALLOC)                                                                                           \
    using NAME##_t = sim::SeqVec<T, A, SALLOC>;                                                                              \
    static void NAME##_run(const sim::Case& c) { static NAME##_t* p = new NAME##_t(); p->run(c); }                           \
    template<int W> static void NAME##_gen(sim::Rng& r, sim::Case& c) { sim::vec_gen(r, c, W); }                             \
    static sim::Harness NAME##_h0{ "vec0_" #NAME, NAME##_gen<0>, NAME##_run, sim::vec_opname, nullptr };                     \
    static sim::Harness NAME##_h1{ "vec1_" #NAME, NAME##_gen<1>, NAME##_run, sim::vec_opname, nullptr };                     \
    static sim::Reg NAME##_r0(&NAME##_h0), NAME##_r1(&NAME##_h1);
