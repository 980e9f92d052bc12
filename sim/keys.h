#pragma once
// Hash containers with gtl's own hash functions and equality, for the key types people use: strings and wide strings looked
// up by view or literal, raw and smart pointers looked up by each other, numbers, enums, pairs, tuples and user types with
// hash_value; random histories with failing allocations and constructors against a reference map.
#include "elem.h"
#include "gtl/phmap.hpp"
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>

namespace {
using namespace sim;
enum KOp : int { KO_INSERT, KO_INSERT_R, KO_EMPLACE, KO_TRY, KO_INDEX, KO_IOA, KO_LAZY, KO_ERASE, KO_ERASE_H, KO_EXTRACT, KO_LOOK, KO_VISIT, KO_FILL, KO_REHASH, KO_CLEAR, KO_COPY, KO_ERASE_IF, KO_COUNT_ };
const char* kopname(int, int c) {
    static const char* n[] = { "insert(const&)", "insert(&&)", "emplace", "try_emplace", "operator[]", "insert_or_assign", "lazy_emplace", "erase(key)", "erase(other key type)", "extract+insert(node)", "lookup", "if_contains/modify_if", "fill", "rehash", "clear", "copy", "erase_if" };
    return c >= 0 && c < KO_COUNT_ ? n[c] : "?";
}
constexpr int KMAX = 400;
int64_t pool[KMAX + 16];
struct NoDel { void operator()(int64_t*) const {} };
enum class En : uint16_t { a };
struct Usr { int32_t x; std::string s; bool operator==(const Usr& o) const { return x == o.x && s == o.s; } friend size_t hash_value(const Usr& u) { return gtl::HashState().combine(0, u.x, u.s); } };

template<class CH> std::basic_string<CH> str(int64_t id) {
    std::basic_string<CH> s;
    if (id % 5 == 0) s.assign(20, CH('x'));      // too long for the inline buffer
    if (id % 7 == 3) s.push_back(CH(0));         // zeroes inside
    for (int64_t q = id; q; q /= 10) s.push_back(CH('0' + q % 10));
    return s;
}
template<class CH> int64_t unstr(const std::basic_string<CH>& s) {
    int64_t v = 0;
    for (size_t q = s.size(); q-- && s[q] >= CH('0') && s[q] <= CH('9');) v = v * 10 + (s[q] - CH('0'));
    return v < 100000 && str<CH>(v) == s ? v : -1;
}
// key of number id, the number of a key, and another spelling of an equal key
struct KStr { using T = std::string; static T mk(int64_t i) { return str<char>(i); }
    static int64_t id(const T& s) { check_range(s.data(), s.size(), false); Ignore g; return unstr<char>(s); }
    template<class F> static void alt(int64_t i, int v, F f) { std::string* s; { Ignore g; s = new std::string(str<char>(i)); s->reserve(s->size() + 1); } struct G { std::string* p; ~G() { Ignore g; delete p; } } g{ s }; if (v == 0) { s->push_back('z'); f(std::string_view(s->data(), s->size() - 1)); } else if (v == 1 && s->find('\0') == s->npos) f(s->c_str()); else f(*s); } };
template<class CH> struct KWStr { using T = std::basic_string<CH>; static T mk(int64_t i) { return str<CH>(i); }
    static int64_t id(const T& s) { check_range(s.data(), s.size() * sizeof(CH), false); Ignore g; return unstr<CH>(s); }
    template<class F> static void alt(int64_t i, int v, F f) { T* s; { Ignore g; s = new T(str<CH>(i)); s->reserve(s->size() + 1); } struct G { T* p; ~G() { Ignore g; delete p; } } g{ s }; if (v) { s->push_back(CH('0' + v)); f(std::basic_string_view<CH>(s->data(), s->size() - 1)); } else f(*s); } };
struct KUniq { using T = std::unique_ptr<int64_t, NoDel>; static T mk(int64_t i) { return T(&pool[i]); } static int64_t id(const T& p) { return p ? p.get() - pool : -1; }
    template<class F> static void alt(int64_t i, int v, F f) { if (v == 0) f(&pool[i]); else if (v == 1) f((const int64_t*)&pool[i]); else { T t(&pool[i]); f(t); } } };
struct KShr { using T = std::shared_ptr<int64_t>; static T mk(int64_t i) { return T(&pool[i], NoDel()); } static int64_t id(const T& p) { return p ? p.get() - pool : -1; }
    template<class F> static void alt(int64_t i, int v, F f) { if (v == 0) f(&pool[i]); else { KUniq::T t(&pool[i]); f(t); } } };
struct KRaw { using T = int64_t*; static T mk(int64_t i) { return &pool[i]; } static int64_t id(const T& p) { return p ? p - pool : -1; }
    template<class F> static void alt(int64_t i, int v, F f) { if (v == 0) f((const int64_t*)&pool[i]); else { KUniq::T t(&pool[i]); f(t); } } };
// pointers to a base class that does not lie at the start of the objects, looked up by pointers to the derived class; key 0 is null
struct PA { int64_t a; }; struct PB { int64_t b; }; struct PD : PA, PB {};
PD dpool[KMAX + 16];
struct NoDelD { void operator()(PB*) const {} };
inline PD* pd(int64_t i) { return i ? &dpool[i] : nullptr; }
inline int64_t pid(const PB* p) { return p ? static_cast<const PD*>(p) - dpool : 0; }
template<class F> void palt(int64_t i, int v, F f) { if (v == 0) f(pd(i)); else if (v == 1) { std::unique_ptr<PD, NoDelD> t(pd(i)); f(t); } else { std::shared_ptr<PD> t(pd(i), NoDelD()); f(t); } }
struct KBs { using T = std::shared_ptr<PB>; static T mk(int64_t i) { return T(pd(i), NoDelD()); } static int64_t id(const T& p) { return pid(p.get()); } template<class F> static void alt(int64_t i, int v, F f) { palt(i, v, f); } };
struct KBr { using T = PB*; static T mk(int64_t i) { return pd(i); } static int64_t id(const T& p) { return pid(p); } template<class F> static void alt(int64_t i, int v, F f) { palt(i, v, f); } };
// views as keys; the viewed strings live elsewhere, and every view of equal text is the same key
struct KSv { using T = std::string_view;
    static const std::string& at(int64_t i) { Ignore g; static std::vector<std::string>* p = [] { auto v = new std::vector<std::string>; for (int64_t q = 0; q < KMAX + 16; ++q) v->push_back(str<char>(q)); return v; }(); return (*p)[(size_t)i]; }
    static T mk(int64_t i) { return at(i); } static int64_t id(const T& s) { check_range(s.data(), s.size(), false); Ignore g; return unstr<char>(std::string(s)); }
    template<class F> static void alt(int64_t i, int v, F f) { if (v == 0) f(at(i)); else KStr::alt(i, v - 1, f); } };
template<class N> struct KNum { using T = N; static T mk(int64_t i) { return (N)(i - 20); } static int64_t id(const T& v) { return (int64_t)(std::make_unsigned_t<N>)(v + 20); }
    template<class F> static void alt(int64_t i, int, F f) { N n = (N)(i - 20); f(n); } };
template<class N> struct KFlt { using T = N; static T mk(int64_t i) { return (N)((double)(i - 7) / 8); } static int64_t id(const T& v) { return (int64_t)(v * 8 + 7.5); }
    template<class F> static void alt(int64_t i, int, F f) { N n = mk(i); if (n == 0) n = -n; f(n); } };    // 0.0 and -0.0 are one key
struct KEn { using T = En; static T mk(int64_t i) { return (En)i; } static int64_t id(const T& v) { return (int64_t)v; } template<class F> static void alt(int64_t i, int, F f) { En e = (En)i; f(e); } };
struct KPair { using T = std::pair<int, std::string>; static T mk(int64_t i) { return T((int)(i % 7), str<char>(i / 7)); } static int64_t id(const T& v) { int64_t s = KStr::id(v.second); return v.first + 7 * s; }
    template<class F> static void alt(int64_t i, int, F f) { T t = mk(i); f(t); } };
struct KTup { using T = std::tuple<int, double, std::string>; static T mk(int64_t i) { return T((int)(i % 3), (double)(i / 3 % 3), str<char>(i / 9)); } static int64_t id(const T& v) { int64_t s = KStr::id(std::get<2>(v)); return std::get<0>(v) + 3 * (int64_t)std::get<1>(v) + 9 * s; }
    template<class F> static void alt(int64_t i, int, F f) { T t = mk(i); if (std::get<1>(t) == 0) std::get<1>(t) = -0.0; f(t); } };
struct KUsr { using T = Usr; static T mk(int64_t i) { return Usr{ (int32_t)(i % 11), str<char>(i / 11) }; } static int64_t id(const T& v) { int64_t s = KStr::id(v.s); return v.x + 11 * s; }
    template<class F> static void alt(int64_t i, int, F f) { T t = mk(i); f(t); } };

template<class C, class KTR, bool MAP, bool PARALLEL>
struct Keys {
    using KT = typename KTR::T;
    using VT = typename C::value_type;
    using Model = std::map<int64_t, int64_t>;
    static constexpr bool COPY = std::is_copy_constructible_v<KT>;
    C* c = nullptr;
    Model m;
    int64_t K = 1;
    const Op* cur = nullptr;
    const char* on() { return kopname(0, cur->code); }
    static int64_t kof(const VT& v) { if constexpr (MAP) return KTR::id(v.first); else return KTR::id(v); }
    static int64_t vof(const VT& v) { if constexpr (MAP) return val(v.second); else return 1; }
    using IT = std::conditional_t<MAP, std::pair<KT, Obj>, KT>;
    static IT mk(int64_t k, int64_t v) { if constexpr (MAP) return IT(KTR::mk(k), Obj(v)); else { (void)v; return KTR::mk(k); } }

    void observe() {
        size_t n = 0, sz;
        { Active a; sz = c->size(); }
        if (sz != m.size()) fail("model", "after %s: size() is %zu, should be %zu", on(), sz, m.size());
        Active a;
        for (auto& v : std::as_const(*c)) {
            int64_t k = kof(v), w = vof(v);
            Ignore g;
            if (++n > sz) fail("model", "after %s: iteration shows more than size() elements", on());
            auto it = m.find(k);
            if (it == m.end() || it->second != w) fail("model", "after %s: the container holds (%lld,%lld), which it should not", on(), (long long)k, (long long)w);
        }
        if (n != sz) fail("model", "after %s: iteration shows %zu elements of %zu", on(), n, sz);
    }
    void lookup(int64_t k, int v) {
        bool has = m.count(k) != 0;
        int64_t w = has ? m[k] : 0;
        Active a;
        C& x = *c;
        KT ko = KTR::mk(k);
        auto chk = [&](const auto& q, const char* how) {
            if (x.contains(q) != has) fail("model", "after %s: contains(%s of key %lld) is %d", on(), how, (long long)k, !has);
            if (x.count(q) != (size_t)has) fail("model", "after %s: count(%s of key %lld) is wrong", on(), how, (long long)k);
            auto it = x.find(q);
            if ((it != x.end()) != has || (has && (kof(*it) != k || vof(*it) != w))) fail("model", "after %s: find(%s of key %lld) is wrong", on(), how, (long long)k);
            if (x.hash(q) != x.hash(ko)) fail("model", "equal keys hash differently (key %lld)", (long long)k);
        };
        chk(ko, "key");
        KTR::alt(k, v, [&](const auto& q) { chk(q, "other spelling"); });
    }
    void step(const Op& op) {
        cur = &op;
        int64_t k = op.a % K, w = op.c, aux = op.b;
        C& x = *c;
        Model t = m;
        bool has = t.count(k) != 0, threw = false, unspec = false;
        C* fresh = nullptr;
        IT* pv = new IT(mk(k, w));
        struct G { IT* p; ~G() { delete p; } } gv{ pv };
        auto put = [&](int64_t kk, int64_t ww) { Ignore g; t.emplace(kk, MAP ? ww : 1); };
        auto res = [&](const auto& r) { if (r.second == has) fail("model", "%s returned %d", on(), (int)r.second); if (kof(*r.first) != k) fail("model", "%s returned another element", on()); put(k, w); };
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case KO_INSERT: if constexpr (COPY) res(x.insert(*pv)); break;
            case KO_INSERT_R: res(x.insert(std::move(*pv))); break;
            case KO_EMPLACE: if constexpr (MAP) res(x.emplace(KTR::mk(k), w)); else res(x.emplace(KTR::mk(k))); break;
            case KO_TRY:
                if constexpr (MAP) {
                    bool did = false;
                    if constexpr (std::is_same_v<KT, std::string>) if (aux & 1) { KTR::alt(k, (int)(aux >> 1) % 3, [&](const auto& q) { res(x.try_emplace(q, w)); }); did = true; }
                    if (!did) res(x.try_emplace(KTR::mk(k), w));
                }
                break;
            case KO_INDEX: if constexpr (MAP) { x[KTR::mk(k)].set(w); Ignore g; t[k] = w; } break;
            case KO_IOA: if constexpr (MAP) { auto r = x.insert_or_assign(KTR::mk(k), Obj(w)); if (r.second == has || kof(*r.first) != k || vof(*r.first) != w) fail("model", "insert_or_assign is wrong"); Ignore g; t[k] = w; } break;
            case KO_LAZY:
                if constexpr (!PARALLEL) KTR::alt(k, (int)aux % 3, [&](const auto& q) { bool called = false; auto it = x.lazy_emplace(q, [&](auto&& ctor) { called = true; if constexpr (MAP) ctor(KTR::mk(k), w); else ctor(KTR::mk(k)); }); if (called == has || kof(*it) != k) fail("model", "lazy_emplace is wrong"); put(k, w); });
                else if constexpr (MAP) KTR::alt(k, (int)aux % 3, [&](const auto& q) { bool called = false; bool r = x.lazy_emplace_l(q, [&](VT& v) { if (!has || kof(v) != k) fail("model", "lazy_emplace_l called back for another element"); }, [&](auto&& ctor) { called = true; ctor(KTR::mk(k), w); }); if (called == has || r != called) fail("model", "lazy_emplace_l is wrong"); put(k, w); });
                break;
            case KO_ERASE: { KT q = KTR::mk(k); size_t n = x.erase(q); if (n != (size_t)has) fail("model", "erase returned %zu", n); Ignore g; t.erase(k); break; }
            case KO_ERASE_H: KTR::alt(k, (int)aux % 3, [&](const auto& q) { size_t n = x.erase(q); if (n != (size_t)has) fail("model", "erase by another spelling returned %zu", n); Ignore g; t.erase(k); }); break;
            case KO_EXTRACT:
                KTR::alt(k, (int)aux % 3, [&](const auto& q) {
                    auto n = x.extract(q);
                    if (n.empty() == has) fail("model", "extract %s", has ? "misses a present key" : "finds an absent key");
                    { Ignore g; t.erase(k); }
                    if (!has) return;
                    int64_t nk; if constexpr (MAP) nk = KTR::id(n.key()); else nk = KTR::id(n.value());
                    if (nk != k) fail("model", "extracted another key");
                    if (aux & 8) { auto r = x.insert(std::move(n)); if (!r.inserted || kof(*r.position) != k) fail("model", "insert(node) is wrong"); Ignore g; t.emplace(k, m[k]); }
                });
                break;
            case KO_LOOK: break;
            case KO_VISIT:
                if constexpr (PARALLEL) KTR::alt(k, (int)aux % 3, [&](const auto& q) {
                    int n = 0; bool r;
                    if constexpr (MAP) r = (aux & 8) ? x.modify_if(q, [&](VT& v) { ++n; v.second.set(w); }) : x.if_contains(q, [&](const VT& v) { ++n; if (kof(v) != k) fail("model", "if_contains shows another element"); });
                    else r = x.if_contains(q, [&](const VT& v) { ++n; if (kof(v) != k) fail("model", "if_contains shows another element"); });
                    if (r != has || n != (int)has) fail("model", "%s called back %d times", on(), n);
                    n = 0;
                    if (x.if_contains_unsafe(q, [&](const VT& v) { ++n; if (kof(v) != k) fail("model", "if_contains_unsafe shows another element"); }) != has || n != (int)has) fail("model", "if_contains_unsafe is wrong");
                    Ignore g; if (MAP && (aux & 8) && has) t[k] = w;
                });
                break;
            case KO_FILL: for (int64_t q = 0; q < aux % 40; ++q) { int64_t kk = (k + q) % K; x.emplace(mk(kk, w + q)); put(kk, w + q); } break;
            case KO_REHASH: if (aux & 1) x.rehash(0); else x.rehash((size_t)(aux % 200)); break;
            case KO_CLEAR: x.clear(); { Ignore g; t.clear(); } break;
            case KO_COPY: if constexpr (COPY) { if (aux & 1) fresh = sim_new<C>(std::as_const(x)); else { C y(x); if (!(y == x)) fail("model", "a copy compares unequal"); } } break;
            case KO_ERASE_IF: if constexpr (!PARALLEL) { erase_if(x, [&](const VT& v) { return kof(v) % 3 == w % 3; }); Ignore g; for (auto it = t.begin(); it != t.end();) if (it->first % 3 == w % 3) it = t.erase(it); else ++it; } break;
            }
        } catch (const Injected&) { threw = true; }
        catch (const std::bad_alloc&) { if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", on()); threw = true; }
        disarm();
        (void)unspec;
        if (threw) {
            count("failed_ops");
            if (op.code == KO_FILL || op.code == KO_EXTRACT) {   // as far as it got
                Active a; size_t n = x.size(); Ignore g;
                if (op.code == KO_FILL) { if (n != t.size()) fail("failed-op", "a failed insertion left size %zu, should be %zu", n, t.size()); m = t; }
                else if (n == m.size()) {} else { t = m; t.erase(k); m = t; }
            } else if (op.code == KO_INDEX) { size_t n; { Active a; n = x.size(); } if (n != m.size()) fail("failed-op", "a failed operator[] inserted an element"); }
            else if (op.code == KO_CLEAR) fail("failed-op", "clear() failed");
        } else m = t;
        if (fresh) { Active a; sim_delete(c); c = fresh; }
        trace_op(1, op.code, (int64_t)m.size() * 3 + threw);
        observe();
        lookup(k, (int)aux % 3);
        lookup((k * 5 + 1) % K, (int)(aux / 3) % 3);
        lookup(K + (int64_t)(aux % 4), 0);
    }
    void run(const Case& cs) {
        K = std::min<int64_t>(cs.params[0], KMAX);
        m.clear();
        { Active a; c = sim_new<C>(); }
        for (auto& o : cs.threads[0]) step(o);
        { Active a; sim_delete(c); }
        m.clear();
    }
};
void gen(Rng& r, Case& c) {
    c.params = { r.chance(1, 3) ? r.range(60, 230) : r.range(1, 30) };
    c.threads.resize(1);
    int n = (int)r.range(3, 30);
    for (int i = 0; i < n; ++i) {
        Op o;
        o.code = r.chance(1, 4) ? (int)KO_FILL : (int)r.below(KO_COUNT_);
        if (o.code == KO_CLEAR && !r.chance(1, 4)) o.code = KO_LOOK;
        o.a = (int64_t)r.below((uint64_t)c.params[0]);
        o.b = (int64_t)r.below(65536);
        o.c = (int64_t)(i + 1) * 1000 + (int64_t)r.below(100);
        if (r.chance(1, 6)) { o.fk = r.chance(1, 2) ? F_ALLOC : F_CTOR; o.fn = (int)r.range(1, 4); }
        c.threads[0].push_back(o);
    }
}
} // namespace
#define KEYS(NAME, KTR, MAP, PARALLEL, ...)                                                                     \
    using NAME##_t = Keys<__VA_ARGS__, KTR, MAP, PARALLEL>;                                                     \
    static void NAME##_run(const sim::Case& c) { static NAME##_t* p = new NAME##_t(); p->run(c); }              \
    static sim::Harness NAME##_h{ "keys_" #NAME, gen, NAME##_run, kopname, nullptr };                           \
    static sim::Reg NAME##_r(&NAME##_h);
#ifdef KEYS_A
KEYS(s, KStr, true, false, gtl::flat_hash_map<std::string, Obj>)
KEYS(sn, KStr, false, false, gtl::node_hash_set<std::string>)
KEYS(sp, KStr, true, true, gtl::parallel_flat_hash_map<std::string, Obj>)
KEYS(w, KWStr<wchar_t>, false, false, gtl::flat_hash_set<std::wstring>)
KEYS(u, KUniq, false, false, gtl::flat_hash_set<KUniq::T>)
KEYS(un, KUniq, true, false, gtl::node_hash_map<KUniq::T, Obj>)
KEYS(h, KShr, true, true, gtl::parallel_node_hash_map<KShr::T, Obj>)
KEYS(r, KRaw, true, false, gtl::flat_hash_map<int64_t*, Obj>)
KEYS(bs, KBs, true, false, gtl::flat_hash_map<KBs::T, Obj>)
KEYS(br, KBr, false, true, gtl::parallel_node_hash_set<PB*>)
KEYS(sv, KSv, true, false, gtl::flat_hash_map<std::string_view, Obj>)
KEYS(us, KWStr<char16_t>, true, false, gtl::node_hash_map<std::u16string, Obj>)
#else
KEYS(i8, KNum<int8_t>, false, false, gtl::flat_hash_set<int8_t>)
KEYS(u16, KNum<uint16_t>, true, true, gtl::parallel_flat_hash_map<uint16_t, Obj>)
KEYS(i32, KNum<int32_t>, true, false, gtl::flat_hash_map<int32_t, Obj>)
KEYS(u64, KNum<uint64_t>, false, true, gtl::parallel_node_hash_set<uint64_t>)
KEYS(f, KFlt<float>, true, false, gtl::node_hash_map<float, Obj>)
KEYS(d, KFlt<double>, false, false, gtl::flat_hash_set<double>)
KEYS(e, KEn, true, false, gtl::flat_hash_map<En, Obj>)
KEYS(q, KPair, true, false, gtl::node_hash_map<KPair::T, Obj>)
KEYS(t, KTup, false, true, gtl::parallel_flat_hash_set<KTup::T>)
KEYS(v, KUsr, true, false, gtl::flat_hash_map<Usr, Obj>)
#endif
