// Harness for lru_cache, memoize and memoize_lru, concurrent (several simulated threads,
// history checked for linearizability per submap) and sequential (one thread, long
// histories).  Models: exact LRU list per submap; set of cached keys for memoize.
#pragma once
#include "elem.h"
#include "submap.h"
#include "lincheck.h"
#include "gtl/lru_cache.hpp"
#include "gtl/memoize.hpp"
#include <memory>
#include <mutex>
#include <shared_mutex>

namespace sim {

enum CacheKind { CK_LRU, CK_MLRU, CK_MEMO, CK_RMEMO };
enum CacheOp : int { CO_PUT, CO_PUT_R, CO_GET, CO_EXISTS, CO_CLEAR, CO_RESERVE, CO_MOVE, CO_GROW, CO_N };
inline const char* cache_opname(int, int c) {
    static const char* n[] = { "insert/call", "insert(&&)/call", "get/contains", "exists/contains", "clear", "reserve", "move-construct", "grow" };
    return c >= 0 && c < CO_N ? n[c] : "?";
}

struct MemoHost { virtual int64_t f(int64_t k) = 0; };
struct MF1 { MemoHost* h; Obj operator()(Obj k) const { int64_t a = val(k); MemoHost* p = h; int64_t r; { Active act; r = p->f(a); } return Obj(r); } };
// two arguments: std::tuple<int64_t, int64_t> has no standard layout, so the table copies such keys when it grows;
// they are trivial here because a key whose copy throws then is outside the fault model (DESIGN.md)
struct MF2 { MemoHost* h; Obj operator()(int64_t a, int64_t b) const { int64_t k = a * 2 + b; MemoHost* p = h; int64_t r; { Active act; r = p->f(k); } return Obj(r); } };

struct CRec {
    int      tid, code, depth;
    int64_t  key, wr;
    uint64_t inv = 0, res = 0, fs = 0, fe = 0;   // fs/fe: start and normal end of the memoized function
    bool     threw = false, faulted = false;
    int64_t  has = -1, value = -1;
    int      fcalls = 0;
};

// F = MF1 / MF2 / void
template<CacheKind KIND, class T, class F>
struct Cache : MemoHost {
    using map_type = typename T::map_type;
    T*      m = nullptr;
    int64_t K = 0, cap = 0, growth = 0;
    int     slow = 0;
    int64_t off = 0;               // entries a submap really holds = cap - off
    std::vector<CRec> rec;
    CRec*   cur[9] = {};
    static constexpr size_t NS = map_type::subcnt();

    static auto key_of(int64_t k) {
        if constexpr (KIND == CK_LRU) return Obj(k);
        else if constexpr (std::is_same_v<F, MF2>) return std::tuple<int64_t, int64_t>(k / 2, k % 2);
        else return std::tuple<Obj>(Obj(k));
    }
    size_t sub(int64_t k) { Ignore g; auto t = key_of(k); size_t h = typename map_type::hasher()(t); return submap_of<map_type>(h); }

    static int64_t ref(int64_t k) {
        if constexpr (KIND == CK_RMEMO) return k <= 0 ? 3 : (ref(k - 1) + (k > 1 ? ref(k - 2) : 0)) % 1000 + k;
        else return k * 7 + 3;
    }
    // the memoized function
    int64_t f(int64_t k) override {
        CRec* r;
        {
            Ignore g;
            r = cur[self()];
            if (k != r->key) fail("memo-args", "the memoized function was called with key %lld instead of %lld", (long long)k, (long long)r->key);
            r->fcalls++;
            r->fs = now_seq();
            for (int i = 0; i < slow; ++i) point();
        }
        if (fault_event(F_CALL)) throw Injected{ F_CALL };
        int64_t v;
        if constexpr (KIND == CK_RMEMO) {
            if (k <= 0) v = 3;
            else {
                v = nested(k - 1);
                if (k > 1) v += nested(k - 2);
                v = v % 1000 + k;
            }
        } else v = k * 7 + 3;
        Ignore g;
        cur[self()] = r;
        for (int i = 0; i < slow; ++i) point();
        r->fe = now_seq();
        return v;
    }
    int64_t nested(int64_t k) {
        CRec* up = cur[self()];
        CRec  r;
        {
            Ignore g;
            r.tid = self(); r.code = CO_PUT; r.depth = up->depth + 1; r.key = k; r.wr = 0; r.inv = now_seq();
            cur[self()] = &r;
        }
        struct Done {
            Cache* c; CRec* r; CRec* up;
            ~Done() { Ignore g; r->res = now_seq(); c->cur[self()] = up; c->rec.push_back(*r); }
        } done{ this, &r, up };
        r.threw = true;
        int64_t v = call(k);
        r.value = v;
        r.threw = false;
        return v;
    }
    int64_t call(int64_t k) {
        if constexpr (KIND == CK_LRU) return 0;
        else if constexpr (std::is_same_v<F, MF2>) { Obj o = (*m)(k / 2, k % 2); return val(o); }
        else { Obj a(k); Obj o = (*m)(a); return val(o); }
    }
    void mk(int64_t maxsz, bool rv) {
        Active a;
        if constexpr (KIND == CK_LRU) m = sim_new<T>((size_t)maxsz);
        else { F f{ this }; if constexpr (KIND == CK_MLRU) { if (rv) m = sim_new<T>(std::move(f), (size_t)maxsz); else m = sim_new<T>(f, (size_t)maxsz); } else { if (rv) m = sim_new<T>(std::move(f)); else m = sim_new<T>(f); } }
    }

    void run_op(int tid, const Op& op) {
        CRec r;
        r.tid = tid; r.code = op.code; r.depth = 0; r.key = op.a; r.wr = op.c;
        int64_t k = op.a;
        Obj ko(k), vo(r.wr), vmv(r.wr);
        cur[tid] = &r;
        r.inv = now_seq();
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case CO_PUT: case CO_PUT_R:
                if constexpr (KIND == CK_LRU) { if (op.code == CO_PUT) m->insert(ko, vo); else m->insert(ko, std::move(vmv)); }
                else r.value = call(k);
                break;
            case CO_GET: case CO_EXISTS:
                if constexpr (KIND == CK_LRU) {
                    if (op.code == CO_EXISTS) r.has = m->exists(ko);
                    else { auto o = m->get(ko); r.has = o.has_value(); if (o) r.value = val(*o); }
                } else if constexpr (std::is_same_v<F, MF2>) { auto o = m->contains(k / 2, k % 2); r.has = o.has_value(); if (o) r.value = val(*o); }
                else { auto o = m->contains(ko); r.has = o.has_value(); if (o) r.value = val(*o); }
                break;
            case CO_CLEAR: m->clear(); break;
            case CO_RESERVE: m->reserve((size_t)op.b); break;
            case CO_MOVE: {
                T* n = sim_new<T>(std::move(*m));
                sim_delete(m);
                m = n;
                break;
            }
            case CO_GROW:
                if constexpr (KIND == CK_LRU || KIND == CK_MLRU) m->set_cache_size((size_t)(op.b * (int64_t)NS));
                break;
            }
        } catch (const Injected&) { r.threw = true;
        } catch (const std::bad_alloc&) { r.threw = true; }
        r.faulted = fault_fired();
        disarm();
        if (r.threw && !r.faulted) fail("exception", "%s threw although no fault was injected", cache_opname(0, op.code));
        if (held_locks(tid)) fail("lock-leak", "%s returned holding a lock", cache_opname(0, op.code));
        r.res = now_seq();
        r.wr = op.code == CO_GROW ? op.b : op.c;
        trace_op(tid, op.code, r.threw ? -7 : r.has * 100 + r.value + r.fcalls * 10000);
        cur[tid] = nullptr;
        rec.push_back(r);
    }

    // ---- models
    void check() {
        std::vector<std::vector<LinOp>> g(NS);
        std::vector<size_t> subof((size_t)K);
        for (int64_t k = 0; k < K; ++k) subof[(size_t)k] = sub(k);
        auto add = [&](size_t s, const CRec& r, uint64_t inv, uint64_t res, std::function<bool(std::vector<int64_t>&)> fn, std::function<bool(std::vector<int64_t>&)> alt = nullptr) {
            LinOp o; o.tid = r.tid; o.inv = inv; o.res = res; o.apply = std::move(fn); o.alt = std::move(alt);
            char b[200]; snprintf(b, sizeof b, "  [%llu..%llu] T%d %s key=%lld wr=%lld has=%lld value=%lld f-calls=%d%s", (unsigned long long)inv, (unsigned long long)res, r.tid, cache_opname(0, r.code), (long long)r.key, (long long)r.wr, (long long)r.has, (long long)r.value, r.fcalls, r.threw ? " threw" : "");
            o.text = b;
            g[s].push_back(std::move(o));
        };
        using St = std::vector<int64_t>;
        // LRU state: st[0] = capacity, then (key, value) pairs, most recent first
        auto pos = [](const St& st, int64_t k) -> size_t { for (size_t i = 1; i < st.size(); i += 2) if (st[i] == k) return i; return 0; };
        auto front = [](St& st, size_t p) { int64_t k = st[p], v = st[p + 1]; st.erase(st.begin() + (long)p, st.begin() + (long)p + 2); st.insert(st.begin() + 1, { k, v }); };
        for (auto& r : rec) {
            size_t  s = subof[(size_t)r.key];
            int64_t k = r.key, w = r.wr, v = r.value;
            bool    put = r.code == CO_PUT || r.code == CO_PUT_R, get = r.code == CO_GET || r.code == CO_EXISTS;
            if (r.fcalls > 1) fail("memo-once", "the memoized function was called %d times by one call", r.fcalls);
            if (KIND != CK_LRU && put && !r.threw && v != ref(k)) fail("memo-value", "call with key %lld returned %lld instead of %lld", (long long)k, (long long)v, (long long)ref(k));
            if (KIND != CK_LRU && get && !r.threw && r.has && v != ref(k)) fail("memo-value", "contains with key %lld returned %lld instead of %lld", (long long)k, (long long)v, (long long)ref(k));
            if (r.code == CO_CLEAR) {
                if (r.threw) fail("exception", "clear threw");
                for (size_t q = 0; q < NS; ++q)
                    add(q, r, r.inv, r.res, [](St& st) { if (KIND == CK_LRU || KIND == CK_MLRU) st.resize(1); else std::fill(st.begin(), st.end(), 0); return true; });
                continue;
            }
            if (r.code == CO_GROW) { int64_t c = r.wr - off; if constexpr (KIND == CK_LRU || KIND == CK_MLRU) for (size_t q = 0; q < NS; ++q) add(q, r, r.inv, r.res, [=](St& st) { st[0] = c; return true; }); continue; }
            if (!put && !get) continue;
            if constexpr (KIND == CK_LRU) {
                if (put) { if (!r.threw) add(s, r, r.inv, r.res, [=](St& st) { if (size_t p = pos(st, k)) { st[p + 1] = w; front(st, p); } else { st.insert(st.begin() + 1, { k, w }); if ((int64_t)(st.size() / 2) > st[0]) st.resize(st.size() - 2); } return true; }); }
                else if (r.threw) add(s, r, r.inv, r.res, [](St&) { return true; }, [=](St& st) { size_t p = pos(st, k); if (!p) return false; front(st, p); return true; });
                else { bool has = r.has != 0, mv = r.code == CO_GET; add(s, r, r.inv, r.res, [=](St& st) { size_t p = pos(st, k); if (has != (p != 0)) return false; if (p && mv) { if (st[p + 1] != v) return false; front(st, p); } return true; }); }
            } else if constexpr (KIND == CK_MLRU) {
                if (put) {
                    if (r.threw) add(s, r, r.inv, r.res, [](St&) { return true; }, [=](St& st) { size_t p = pos(st, k); if (!p) return false; front(st, p); return true; });
                    else { bool called = r.fcalls != 0; add(s, r, r.inv, r.res, [=](St& st) { size_t p = pos(st, k); if (called == (p != 0)) return false; if (p) front(st, p); else { st.insert(st.begin() + 1, { k, v }); if ((int64_t)(st.size() / 2) > st[0]) st.resize(st.size() - 2); } return true; }); }
                } else if (!r.threw) { bool has = r.has != 0; add(s, r, r.inv, r.res, [=](St& st) { return has == (pos(st, k) != 0); }); }
            } else {
                size_t i = (size_t)k;
                if (put) {
                    bool called = r.fcalls != 0;
                    if constexpr (KIND == CK_MEMO) { if (!r.threw) add(s, r, r.inv, r.res, [=](St& st) { if (called == (st[i] != 0)) return false; st[i] = 1; return true; }); }
                    else {
                        if (called) add(s, r, r.inv, r.fs, [=](St& st) { return st[i] == 0; });
                        else if (!r.threw) add(s, r, r.inv, r.res, [=](St& st) { return st[i] != 0; });
                        if (called && r.fe) { auto ins = [=](St& st) { st[i] = 1; return true; }; if (r.threw) add(s, r, r.fe, r.res, [](St&) { return true; }, ins); else add(s, r, r.fe, r.res, ins); }
                    }
                } else if (!r.threw) { bool has = r.has != 0; add(s, r, r.inv, r.res, [=](St& st) { return has == (st[i] != 0); }); }
            }
        }
        for (size_t q = 0; q < NS; ++q) {
            if (g[q].empty()) continue;
            St init;
            if (KIND == CK_LRU || KIND == CK_MLRU) init.push_back(cap - off); else init.assign((size_t)K, 0);
            auto res = linearizable(g[q], init);
            count(res.exhausted ? "lin_budget_exhausted" : "lin_checked");
            if (!res.ok) {
                note("submap %zu history (no sequential order explains it):", q);
                for (auto& o : g[q]) note("%s", o.text.c_str());
                fail("linearizability", "history of submap %zu (%zu operations) matches no sequential cache", q, g[q].size());
            }
        }
    }

    // how many entries does a submap hold?  The documentation calls the limit approximate;
    // anything but limit or limit-1 is reported, and the model then uses the measured value.
    int64_t measured = -1;
    void calibrate() {
        if (measured >= 0) { off = measured; return; }
        if constexpr (KIND == CK_LRU || KIND == CK_MLRU) {
            int gm = g_hash_mode; g_hash_mode = 2;   // all keys in one submap
            int sl = slow; slow = 0;
            mk(4 * (int64_t)NS, false);
            int64_t held = 0;
            CRec r{}; r.tid = 0; r.depth = 0;
            std::vector<int64_t> ks;               // ten keys of one submap
            for (int64_t k = 0; ks.size() < 10 && k < 100000; ++k) if (sub(k) == sub(0)) ks.push_back(k);
            for (int64_t k : ks) { r.key = k; r.fcalls = 0; cur[0] = &r; Active a; if constexpr (KIND == CK_LRU) m->insert(Obj(k), Obj(k)); else call(k); }
            for (int64_t k : ks) {
                Active a;
                if constexpr (KIND == CK_LRU) held += m->exists(Obj(k));
                else if constexpr (std::is_same_v<F, MF2>) held += m->contains(k / 2, k % 2).has_value();
                else held += m->contains(Obj(k)).has_value();
            }
            { Active a; sim_delete(m); m = nullptr; }
            cur[0] = nullptr;
            g_hash_mode = gm; slow = sl;
            if (held != 4 && held != 3) fail("capacity", "a cache limited to 4 entries per submap holds %lld after 10 insertions", (long long)held);
            off = 4 - held;
        } else off = 0;
        measured = off;
    }

    void run(const Case& c) {
        K = c.params[0]; g_hash_mode = (int)c.params[1]; slow = (int)c.params[2]; cap = c.params[3];
        measured = -1;
        calibrate();
        mk(cap * (int64_t)NS, (K + cap) & 1);
        rec.clear();
        int n = (int)c.threads.size();
        if (n == 1) for (auto& o : c.threads[0]) run_op(0, o);
        else run_threads(n, [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) run_op(tid, o); });
        // final observation
        size_t held = 0, before; 
        { Active a; before = m->size(); }
        for (int64_t k = 0; k < K; ++k) { Op o; o.code = CO_EXISTS; o.a = k; run_op(0, o); held += rec.back().has == 1; }
        if (held != before) fail("consistency", "after quiescence size()=%zu but %zu keys are cached", before, held);
        check();
        rec.clear(); rec.shrink_to_fit();
        { Active a; sim_delete(m); m = nullptr; }
    }
};

inline void cache_gen(Rng& r, Case& c, CacheKind kind, bool mt) {
    bool    lru = kind == CK_LRU || kind == CK_MLRU;
    int64_t cap = r.range(3, 5);
    int64_t K = kind == CK_RMEMO ? r.range(1, mt ? 4 : 10) : lru ? r.range(2, 9) : r.range(1, 5);
    int     hm = r.chance(1, 2) ? 0 : (int)r.below(5);
    c.params = { K, hm, (int64_t)r.below(3), cap };
    int n = mt ? (int)r.range(2, r.chance(1, 4) ? 4 : 3) : 1;
    c.threads.resize((size_t)n);
    int64_t uid = 1;
    int fpct = r.chance(1, 2) ? 0 : mt ? 20 : 30;
    bool clr = r.chance(1, 2);
    int64_t g = cap;
    bool hot = r.chance(1, 2);
    for (auto& t : c.threads) {
        int m = mt ? (int)r.range(1, kind == CK_RMEMO ? 3 : r.chance(1, 3) ? 8 : 4) : (int)r.range(3, kind == CK_RMEMO ? 12 : 45);
        for (int i = 0; i < m; ++i) {
            Op o;
            int x = (int)r.below(100);
            o.code = x < 30 ? CO_PUT : x < 50 ? CO_PUT_R : x < 75 ? CO_GET : x < 88 ? CO_EXISTS : (x < 92 && clr) ? CO_CLEAR : x < 94 ? CO_RESERVE : (!mt && x < 97) ? CO_MOVE : (!mt && x < 98 && lru) ? CO_GROW : CO_PUT;
            o.a = hot && r.chance(1, 2) ? 0 : (int64_t)r.below((uint64_t)K);
            o.b = o.code == CO_RESERVE ? r.range(0, 40) : 0;
            if (o.code == CO_GROW) { g += r.range(0, 2); o.b = g; }
            o.c = uid++ * 10;
            if (fpct && o.code <= CO_RESERVE && o.code != CO_CLEAR && r.chance(fpct, 100)) {
                int k = (int)r.below(3);
                o.fk = k == 0 ? F_ALLOC : k == 1 ? F_CTOR : F_CALL;
                o.fn = (int)r.range(1, k == 2 ? 1 : 5);
            }
            t.push_back(o);
        }
    }
}

} // namespace sim

#define CACHE_HARNESS(NAME, KIND, MT, F, ...)                                                                       \
    using NAME##_t = __VA_ARGS__;                                                                                   \
    using NAME##_c = sim::Cache<sim::KIND, NAME##_t, F>;                                                            \
    static NAME##_c& NAME##_p() { static NAME##_c* p = new NAME##_c(); return *p; }                                 \
    static void NAME##_run(const sim::Case& c) { NAME##_p().run(c); }                                               \
    static void NAME##_gen(sim::Rng& r, sim::Case& c) { sim::cache_gen(r, c, sim::KIND, MT); }                      \
    static sim::Harness NAME##_h{ "cache_" #NAME, NAME##_gen, NAME##_run, sim::cache_opname, nullptr };             \
    static sim::Reg NAME##_r(&NAME##_h);
