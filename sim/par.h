// Harness for the internally locked parallel containers: several simulated threads run
// random operations on two shared containers A and B; the recorded history must be
// linearizable per submap, callbacks must be isolated, every operation must finish.
#pragma once
#include "elem.h"
#include "submap.h"
#include "lincheck.h"
#include "gtl/phmap.hpp"
#include <execution>
#include <memory>
#include <mutex>
#include <shared_mutex>

namespace sim {

enum ParOp : int {
    PO_INSERT_C, PO_INSERT_R, PO_EMPLACE, PO_EMPLACE_HASH, PO_EMPLACE_HINT, PO_TRY_EMPLACE, PO_TRY_EMPLACE_R, PO_TRY_EMPLACE_HASH,
    PO_TRY_EMPLACE_P, PO_INSERT_OR_ASSIGN, PO_INSERT_OR_ASSIGN_R, PO_TRY_EMPLACE_L, PO_LAZY_EMPLACE_L, PO_LAZY_EMPLACE,
    PO_LAZY_EMPLACE_HASH, PO_TOGGLE, PO_ERASE, PO_ERASE_IF, PO_IF_CONTAINS, PO_MODIFY_IF, PO_CONTAINS, PO_COUNT, PO_CONTAINS_HASH,
    PO_FIND, PO_EXTRACT, PO_INSERT_NODE, PO_INSERT_RANGE, PO_INSERT_IL,
    PO_FOR_EACH, PO_FOR_EACH_M, PO_FOR_EACH_SEQ, PO_FOR_EACH_M_SEQ, PO_WITH_SUBMAP, PO_WITH_SUBMAP_M, PO_CLEAR, PO_CLEAR_IDX,
    PO_REHASH, PO_RESERVE, PO_MERGE, PO_SWAP, PO_EQUAL, PO_BUCKETS, PO_PREFETCH,
    PO_COUNT_
};
inline const char* par_opname(int, int c) {
    static const char* n[] = { "insert(const&)", "insert(&&)", "emplace", "emplace_with_hash", "emplace_hint", "try_emplace", "try_emplace(&&)",
        "try_emplace_with_hash", "try_emplace_p", "insert_or_assign", "insert_or_assign(&&)", "try_emplace_l", "lazy_emplace_l", "lazy_emplace",
        "lazy_emplace_with_hash", "emplace_single", "erase", "erase_if", "if_contains", "modify_if", "contains", "count", "contains(hash)",
        "find", "extract", "insert(node)", "insert(range)", "insert(init_list)", "for_each", "for_each_m", "for_each(seq)", "for_each_m(seq)",
        "with_submap", "with_submap_m", "clear", "clear(idx)", "rehash", "reserve", "merge", "swap", "operator==", "bucket_count", "prefetch" };
    return c >= 0 && c < PO_COUNT_ ? n[c] : "?";
}
inline bool po_map_only(int c) {
    return c == PO_TRY_EMPLACE || c == PO_TRY_EMPLACE_R || c == PO_TRY_EMPLACE_HASH || c == PO_TRY_EMPLACE_P || c == PO_INSERT_OR_ASSIGN ||
           c == PO_INSERT_OR_ASSIGN_R || c == PO_TRY_EMPLACE_L;
}
inline bool po_keyed(int c) { return c <= PO_INSERT_NODE; }

struct ParRec {
    int      tid, code, cont, idx;      // idx: op index within thread
    int64_t  key, key2, wr;             // wr: value this op writes
    uint64_t inv = 0, res = 0;
    bool     threw = false;
    int64_t  result = -99;              // returned bool/count
    int64_t  called = 0;                // callback invocations
    int64_t  seen = -1;                 // value the callback observed
    int64_t  sub = -1;                  // submap index (with_submap, clear(idx))
    bool     emplaced = false;          // lazy_emplace ran its constructor lambda
    std::vector<std::pair<int64_t, int64_t>> all;  // (key, value) observed by traversals
};

struct Mon {  // who is inside a callback, per container and submap
    int readers[2][64] = {}, writers[2][64] = {};
    void enter(int c, size_t s, bool ex) {
        if (ex ? (readers[c][s] || writers[c][s]) : writers[c][s] != 0)
            fail("isolation", "%s callback on submap %zu of container %c overlaps %s callback of another thread", ex ? "exclusive" : "shared", s, c ? 'B' : 'A',
                 writers[c][s] ? "an exclusive" : "a shared");
        (ex ? writers : readers)[c][s]++;
    }
    void leave(int c, size_t s, bool ex) { (ex ? writers : readers)[c][s]--; }
};

template<class M, bool MAP, bool LOCKF = false>
struct Par {
    using value_type = typename M::value_type;
    using D = M;
    D*       C[2];
    Mon      mon;
    static constexpr bool lock_fails = LOCKF;
    int64_t  K;
    std::vector<ParRec> rec;   // completed operations, in order of completion
    bool     lin_all;          // thread-ops are checked
    int      slow;             // callbacks yield this many times

    static int64_t kof(const value_type& v) { if constexpr (MAP) return val(v.first); else return val(v); }
    static int64_t vof(const value_type& v) { if constexpr (MAP) return val(v.second); else return 1; }
    size_t sub(int64_t k) const { Ignore g; return submap_of<D>(hash_i64(k)); }
    size_t phash(int64_t k) const { Obj o(k); return C[0]->hash(o); }
    static value_type mkval(int64_t k, int64_t v) { if constexpr (MAP) return value_type(Obj(k), Obj(v)); else return Obj(k); }

    struct Cb {  // scope of a user callback
        Par& p; int c; size_t s; bool ex; bool live = false;
        Cb(Par& p_, int c_, int64_t key, bool ex_) : p(p_), c(c_), ex(ex_) {
            Ignore g;
            s = p.sub(key);
            p.mon.enter(c, s, ex);
            live = true;
            for (int i = 0; i < p.slow; ++i) point();
        }
        ~Cb() { Ignore g; for (int i = 0; i < p.slow; ++i) point(); p.mon.leave(c, s, ex); }
        void maybe_throw() { if (fault_event(F_CALL)) throw Injected{ F_CALL }; }
    };

    void run_op(int tid, int idx, const Op& op) {
        ParRec r;
        r.tid = tid; r.code = op.code; r.idx = idx; r.key = op.a; r.cont = (int)(op.b & 1); r.wr = op.c; r.key2 = (op.b >> 1);
        D&      m  = *C[r.cont];
        D&      m2 = *C[1 - r.cont];
        int64_t k  = r.key;
        const int var = (int)(r.wr % 1000) >> 1 & 3;   // which overload
        const bool nd = (int)(r.wr % 1000) >> 3 & 1;   // arguments that hide the key: the element is built before the lookup
        // arguments are built un-faulted
        Obj     ko(k), vo(r.wr);
        Obj     kmv(k), vmv(r.wr);
        size_t  h = phash(k);
        std::unique_ptr<value_type> pv(new value_type(mkval(k, r.wr)));
        std::unique_ptr<std::vector<value_type>> rng;
        std::unique_ptr<typename M::node_type> nt;
        D*      scratch = nullptr;
        if (op.code == PO_INSERT_RANGE || op.code == PO_INSERT_IL) {
            rng.reset(new std::vector<value_type>());
            rng->reserve(2);
            rng->push_back(mkval(k, r.wr)); rng->push_back(mkval(r.key2 % K, r.wr));
        }
        if (op.code == PO_INSERT_NODE) {
            Active a;
            scratch = sim_new<D>();
            scratch->insert(std::move(*pv));
            nt.reset(new typename M::node_type(scratch->extract(scratch->begin())));
        }
        r.sub = (int64_t)((uint64_t)(op.b >> 1) % D::subcnt());
        r.inv = now_seq();
        if (!(lock_fails && op.fk == F_CALL && !po_keyed(op.code))) arm(op);   // a lock that fails half-way through a whole-container operation: no promise to check
        try {
            Active act;
            switch (op.code) {
            case PO_INSERT_C: r.result = m.insert(*pv).second; break;
            case PO_INSERT_R: r.result = m.insert(std::move(*pv)).second; break;
            case PO_EMPLACE:
                if (nd) { if constexpr (MAP) r.result = m.emplace(std::piecewise_construct, std::make_tuple(k, 0), std::make_tuple(r.wr)).second; else r.result = m.emplace(k, 0).second; break; }
                if constexpr (MAP) r.result = var == 0 ? m.emplace(ko, vo).second : var == 1 ? m.emplace(k, r.wr).second : var == 2 ? m.emplace(std::piecewise_construct, std::make_tuple(k), std::make_tuple(r.wr)).second : m.emplace(std::move(kmv), std::move(vmv)).second;
                else r.result = var & 1 ? m.emplace(k).second : m.emplace(ko).second;
                break;
            case PO_EMPLACE_HASH:
                if (nd) { if constexpr (MAP) r.result = m.emplace_with_hash(h, std::piecewise_construct, std::make_tuple(k, 0), std::make_tuple(r.wr)).second; else r.result = m.emplace_with_hash(h, k, 0).second; break; }
                if constexpr (MAP) r.result = var & 1 ? m.emplace_with_hash(h, k, r.wr).second : m.emplace_with_hash(h, ko, vo).second;
                else r.result = var & 1 ? m.emplace_with_hash(h, k).second : m.emplace_with_hash(h, ko).second;
                break;
            case PO_EMPLACE_HINT:
                if (var == 1) m.insert(m.end(), *pv); else if (var == 2) m.insert(m.end(), std::move(*pv));
                else if constexpr (MAP) m.emplace_hint(m.end(), ko, vo); else m.emplace_hint(m.end(), ko);
                break;
            case PO_TRY_EMPLACE: if constexpr (MAP) r.result = m.try_emplace(ko, vo).second; break;
            case PO_TRY_EMPLACE_R: if constexpr (MAP) r.result = m.try_emplace(std::move(kmv), std::move(vmv)).second; break;
            case PO_TRY_EMPLACE_HASH: if constexpr (MAP) r.result = var & 1 ? m.try_emplace_with_hash(h, std::move(kmv), vo).second : m.try_emplace_with_hash(h, ko, vo).second; break;
            case PO_TRY_EMPLACE_P: if constexpr (MAP) r.result = m.try_emplace_p(ko, vo).second; break;
            case PO_INSERT_OR_ASSIGN: if constexpr (MAP) r.result = var & 1 ? m.insert_or_assign(ko, std::move(vmv)).second : m.insert_or_assign(ko, vo).second; break;
            case PO_INSERT_OR_ASSIGN_R: if constexpr (MAP) r.result = var & 1 ? m.insert_or_assign(std::move(kmv), vo).second : m.insert_or_assign(std::move(kmv), std::move(vmv)).second; break;
            case PO_TRY_EMPLACE_L:
                if constexpr (MAP)
                    r.result = m.try_emplace_l(ko, [&](value_type& v) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); r.called++; r.seen = val(v.second); v.second.set(r.wr); }, vo);
                break;
            case PO_LAZY_EMPLACE_L:
                r.result = m.lazy_emplace_l(
                    ko,
                    [&](value_type& v) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); r.called++; r.seen = vof(v); if constexpr (MAP) v.second.set(r.wr); },
                    [&](const typename M::constructor& ctor) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); if constexpr (MAP) ctor(ko, vo); else ctor(ko); r.emplaced = true; });
                break;
            case PO_LAZY_EMPLACE: case PO_LAZY_EMPLACE_HASH: {
                auto f = [&](const typename M::constructor& ctor) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); if constexpr (MAP) ctor(ko, vo); else ctor(ko); r.emplaced = true; };
                if (op.code == PO_LAZY_EMPLACE) (void)m.lazy_emplace(ko, f); else (void)m.lazy_emplace_with_hash(ko, h, f);
                r.result = r.emplaced;
                break;
            }
            case PO_TOGGLE:
                m.emplace_single(ko, [&](const typename M::constructor& ctor) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); if constexpr (MAP) ctor(ko, vo); else ctor(ko); r.emplaced = true; });
                r.result = r.emplaced;
                break;
            case PO_ERASE: r.result = (int64_t)m.erase(ko); break;
            case PO_ERASE_IF:
                r.result = m.erase_if(ko, [&](value_type& v) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); r.called++; r.seen = vof(v); r.emplaced = (r.wr & 1); return (r.wr & 1) != 0; });
                break;
            case PO_IF_CONTAINS:
                r.result = std::as_const(m).if_contains(ko, [&](const value_type& v) { int64_t b = vof(v); Cb cb(*this, r.cont, k, false); cb.maybe_throw(); r.called++; r.seen = vof(v);
                    if (b != r.seen) fail("isolation", "value changed from %lld to %lld while a read callback was running", (long long)b, (long long)r.seen); });
                break;
            case PO_MODIFY_IF:
                r.result = m.modify_if(ko, [&](value_type& v) { Cb cb(*this, r.cont, k, true); cb.maybe_throw(); r.called++; r.seen = vof(v); if constexpr (MAP) v.second.set(r.wr); });
                break;
            case PO_CONTAINS: r.result = std::as_const(m).contains(ko); break;
            case PO_COUNT: r.result = (int64_t)std::as_const(m).count(ko); break;
            case PO_CONTAINS_HASH: r.result = std::as_const(m).contains(ko, h); break;
            case PO_FIND:
                if (r.wr & 1) r.result = m.find(ko) != m.end(); else r.result = std::as_const(m).find(ko, h) != std::as_const(m).end(); break;
            case PO_EXTRACT: {
                auto n = m.extract(ko);
                r.result = !n.empty();
                if (r.result) {
                    if constexpr (MAP) { r.seen = val(n.mapped()); r.called = val(n.key()) == k; } else { r.seen = 1; r.called = val(n.value()) == k; }
                }
                break;
            }
            case PO_INSERT_NODE: {
                auto rr = m.insert(std::move(*nt));
                r.result = rr.inserted;
                r.called = rr.inserted ? (int64_t)rr.node.empty() : (int64_t)!rr.node.empty();
                break;
            }
            case PO_INSERT_RANGE: m.insert(rng->begin(), rng->end()); break;
            case PO_INSERT_IL: m.insert({ (*rng)[0], (*rng)[1] }); break;
            case PO_FOR_EACH: std::as_const(m).for_each([&](const value_type& v) { obs(r, v, false); }); break;
            case PO_FOR_EACH_SEQ: std::as_const(m).for_each(std::execution::seq, [&](const value_type& v) { obs(r, v, false); }); break;
            case PO_FOR_EACH_M: if constexpr (MAP) m.for_each_m([&](value_type& v) { obs(r, v, true); }); else m.for_each_m([&](const value_type& v) { obs(r, v, true); }); break;
            case PO_FOR_EACH_M_SEQ:
                if constexpr (MAP) m.for_each_m(std::execution::seq, [&](value_type& v) { obs(r, v, true); });
                else m.for_each_m(std::execution::seq, [&](const value_type& v) { obs(r, v, true); });
                break;
            case PO_WITH_SUBMAP:
                std::as_const(m).with_submap((size_t)r.sub, [&](const auto& s) {
                    size_t n = 0;
                    SubCb cb(*this, r.cont, (size_t)r.sub, false);
                    cb.maybe_throw();
                    for (auto& v : s) { { Ignore g; r.all.push_back({ 0, 0 }); } r.all.back() = { kof(v), vof(v) }; ++n; }
                    if (n != s.size()) fail("submap", "submap reports size %zu but iterates %zu elements", (size_t)s.size(), n);
                    r.called = 1;
                });
                break;
            case PO_WITH_SUBMAP_M:
                m.with_submap_m((size_t)r.sub, [&](auto& s) {
                    SubCb cb(*this, r.cont, (size_t)r.sub, true);
                    cb.maybe_throw();
                    for (auto& v : s) { { Ignore g; r.all.push_back({ 0, 0 }); } r.all.back() = { kof(v), vof(v) }; if constexpr (MAP) v.second.set(r.wr + kof(v)); }
                    r.called = 1;
                });
                break;
            case PO_CLEAR: m.clear(); break;
            case PO_CLEAR_IDX: m.clear((size_t)r.sub); break;
            case PO_REHASH: m.rehash((size_t)(r.wr % 3 == 0 ? 0 : r.wr % 97)); break;
            case PO_RESERVE: m.reserve((size_t)(r.wr % 61)); break;
            case PO_MERGE: if (r.wr & 1) m.merge(m2); else m.merge(std::move(m2)); break;
            case PO_SWAP: m.swap(r.wr % 7 == 0 ? m : m2); break;
            case PO_EQUAL: if (r.wr % 5 == 0) r.result = static_cast<M&>(m) == static_cast<M&>(m); else r.result = static_cast<M&>(m) == static_cast<M&>(m2); break;
            case PO_BUCKETS: { size_t n = std::as_const(m).bucket_count(); if (n > (size_t)1 << 40) fail("model", "bucket_count() is %zu", n); break; }
            case PO_PREFETCH: std::as_const(m).prefetch(ko); break;
            }
        } catch (const Injected&) {
            r.threw = true;
        } catch (const std::bad_alloc&) {
            if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", par_opname(0, op.code));
            r.threw = true;
        }
        disarm();
        if (held_locks(tid)) fail("lock-leak", "%s returned (%s) while a submap lock is still held", par_opname(0, op.code), r.threw ? "by exception" : "normally");
        r.res = now_seq();
        trace_op(tid, op.code, r.result * 1000003 + r.seen + r.threw * 7 + (int64_t)r.all.size() * 131);
        if (r.threw) count("op_exceptions");
        if (scratch) { nt.reset(); Active a; sim_delete(scratch); }
        rec.push_back(std::move(r));
    }

    struct SubCb {
        Par& p; int c; size_t s; bool ex;
        SubCb(Par& p_, int c_, size_t s_, bool ex_) : p(p_), c(c_), s(s_), ex(ex_) { Ignore g; p.mon.enter(c, s, ex); for (int i = 0; i < p.slow; ++i) point(); }
        ~SubCb() { Ignore g; for (int i = 0; i < p.slow; ++i) point(); p.mon.leave(c, s, ex); }
        void maybe_throw() { if (fault_event(F_CALL)) throw Injected{ F_CALL }; }
    };

    template<class V> void obs(ParRec& r, V& v, bool ex) {
        int64_t kk = kof(v);
        Cb cb(*this, r.cont, kk, ex);
        cb.maybe_throw();
        { Ignore g; r.all.push_back({ 0, 0 }); }
        r.all.back() = { kk, vof(v) };
        if constexpr (MAP && !std::is_const_v<V>) if (ex) v.second.set(r.wr + kk);
    }

    // ---- model: state[0..K) = container A, state[K..2K) = container B; -1 absent
    std::string text(const ParRec& r) const {
        char b[256];
        int n = snprintf(b, sizeof b, "t%d.%d [%llu,%llu] %c.%s(key=%lld,val=%lld)%s -> ret=%lld called=%lld seen=%lld", r.tid, r.idx, (unsigned long long)r.inv,
                 (unsigned long long)r.res, r.cont ? 'B' : 'A', par_opname(0, r.code), (long long)r.key, (long long)(MAP ? r.wr : 1), r.threw ? " THREW" : "", (long long)r.result,
                 (long long)r.called, (long long)r.seen);
        std::string s(b, (size_t)(n < 0 ? 0 : n > 255 ? 255 : n));
        if (!r.all.empty()) { s += " saw{"; for (auto& p : r.all) { snprintf(b, sizeof b, "%lld:%lld ", (long long)p.first, (long long)p.second); s += b; } s += "}"; }
        return s;
    }

    void check_history(const std::vector<int64_t>& init) {
        size_t ns = D::subcnt();
        std::vector<std::vector<LinOp>> g(ns);
        std::vector<size_t> subof((size_t)K);
        for (int64_t k = 0; k < K; ++k) subof[(size_t)k] = sub(k);
        auto add = [&](size_t s, const ParRec& r, std::function<bool(std::vector<int64_t>&)> f) {
            LinOp o; o.tid = r.tid; o.inv = r.inv; o.res = r.res; o.apply = std::move(f); o.text = text(r);
            g[s].push_back(std::move(o));
        };
        for (const ParRec& r : rec) {
            size_t off = (size_t)(r.cont * K), oth = (size_t)((1 - r.cont) * K);
            size_t ki = off + (size_t)r.key;
            size_t s  = subof[(size_t)r.key];
            const int64_t wr = MAP ? r.wr : 1;
            auto chk = [&](bool c, const char* what) { if (!c) fail("result", "%s: %s", what, text(r).c_str()); };
            switch (r.code) {
            case PO_INSERT_C: case PO_INSERT_R: case PO_EMPLACE: case PO_EMPLACE_HASH: case PO_TRY_EMPLACE: case PO_TRY_EMPLACE_R: case PO_TRY_EMPLACE_HASH:
            case PO_TRY_EMPLACE_P: case PO_LAZY_EMPLACE: case PO_LAZY_EMPLACE_HASH: case PO_INSERT_NODE: {
                if (r.threw) { if (r.code != PO_INSERT_NODE) chk(!r.emplaced, "exception after the element was inserted"); break; }
                if (r.code == PO_INSERT_NODE) chk(r.called == 1, "node handle neither consumed nor returned");
                bool ins = r.result != 0;
                add(s, r, [=](std::vector<int64_t>& st) { if (ins != (st[ki] < 0)) return false; if (ins) st[ki] = wr; return true; });
                break;
            }
            case PO_EMPLACE_HINT:
                if (!r.threw) add(s, r, [=](std::vector<int64_t>& st) { if (st[ki] < 0) st[ki] = wr; return true; });
                break;
            case PO_INSERT_RANGE: case PO_INSERT_IL: {
                int64_t k2 = r.key2 % K;
                size_t  k2i = off + (size_t)k2;
                if (r.threw) break;  // not generated with faults
                add(s, r, [=](std::vector<int64_t>& st) { if (st[ki] < 0) st[ki] = wr; return true; });
                add(subof[(size_t)k2], r, [=](std::vector<int64_t>& st) { if (st[k2i] < 0) st[k2i] = wr; return true; });
                break;
            }
            case PO_INSERT_OR_ASSIGN: case PO_INSERT_OR_ASSIGN_R: {
                if (r.threw) break;
                bool ins = r.result != 0;
                add(s, r, [=](std::vector<int64_t>& st) { if (ins != (st[ki] < 0)) return false; st[ki] = wr; return true; });
                break;
            }
            case PO_TRY_EMPLACE_L: case PO_LAZY_EMPLACE_L: {
                if (r.threw) { chk(!r.called && !r.emplaced, "exception after effect"); break; }
                bool ins = r.result != 0;
                chk(r.called == (ins ? 0 : 1), "exists-callback not called exactly once iff the key was present");
                if (r.code == PO_LAZY_EMPLACE_L) chk(r.emplaced == ins, "construct-callback not called iff the key was absent");
                int64_t seen = r.seen;
                add(s, r, [=](std::vector<int64_t>& st) { if (ins != (st[ki] < 0)) return false; if (!ins && st[ki] != seen) return false; st[ki] = wr; return true; });
                break;
            }
            case PO_TOGGLE: {
                if (r.threw) { chk(!r.emplaced, "exception after effect"); break; }
                bool ins = r.result != 0;
                add(s, r, [=](std::vector<int64_t>& st) { if (ins != (st[ki] < 0)) return false; st[ki] = ins ? wr : -1; return true; });
                break;
            }
            case PO_ERASE: {
                if (r.threw) { chk(lock_fails, "erase threw"); break; }
                bool er = r.result == 1;
                chk(r.result == 0 || r.result == 1, "erase count");
                add(s, r, [=](std::vector<int64_t>& st) { if (er != (st[ki] >= 0)) return false; st[ki] = -1; return true; });
                break;
            }
            case PO_ERASE_IF: {
                if (r.threw) { chk(!r.called, "exception after predicate"); break; }
                bool er = r.result != 0, called = r.called != 0, dec = r.emplaced;
                int64_t seen = r.seen;
                chk(r.called <= 1, "predicate called more than once");
                chk(!er || (called && dec), "erase_if returned true but the predicate did not accept");
                chk(er || !(called && dec), "erase_if returned false but the predicate accepted");
                add(s, r, [=](std::vector<int64_t>& st) { if (called != (st[ki] >= 0)) return false; if (called && st[ki] != seen) return false; if (er) st[ki] = -1; return true; });
                break;
            }
            case PO_IF_CONTAINS: case PO_MODIFY_IF: {
                if (r.threw) { chk(!r.called, "exception after effect"); break; }
                bool has = r.result != 0; int64_t seen = r.seen; bool mod = r.code == PO_MODIFY_IF;
                chk(r.called == (has ? 1 : 0), "callback not called exactly once iff the key was present");
                add(s, r, [=](std::vector<int64_t>& st) { if (has != (st[ki] >= 0)) return false; if (has && st[ki] != seen) return false; if (has && mod) st[ki] = wr; return true; });
                break;
            }
            case PO_CONTAINS: case PO_COUNT: case PO_CONTAINS_HASH: case PO_FIND: {
                if (r.threw) { chk(lock_fails, "lookup threw"); break; }
                bool has = r.result != 0;
                add(s, r, [=](std::vector<int64_t>& st) { return has == (st[ki] >= 0); });
                break;
            }
            case PO_EXTRACT: {
                if (r.threw) break;
                bool has = r.result != 0; int64_t seen = r.seen;
                chk(!has || r.called, "extracted node holds another key");
                add(s, r, [=](std::vector<int64_t>& st) { if (has != (st[ki] >= 0)) return false; if (has && st[ki] != seen) return false; st[ki] = -1; return true; });
                break;
            }
            case PO_FOR_EACH: case PO_FOR_EACH_SEQ: case PO_FOR_EACH_M: case PO_FOR_EACH_M_SEQ: case PO_WITH_SUBMAP: case PO_WITH_SUBMAP_M: {
                bool mod = (r.code == PO_FOR_EACH_M || r.code == PO_FOR_EACH_M_SEQ || r.code == PO_WITH_SUBMAP_M) && MAP;
                bool one = r.code == PO_WITH_SUBMAP || r.code == PO_WITH_SUBMAP_M;
                if (one && !r.threw) chk(r.called == 1, "with_submap callback not called exactly once");
                std::vector<std::vector<std::pair<int64_t, int64_t>>> by(ns);
                for (auto& p : r.all) {
                    chk(p.first >= 0 && p.first < K, "traversal saw a key that was never inserted");
                    size_t ps = subof[(size_t)p.first];
                    chk(!one || ps == (size_t)r.sub, "submap holds a key of another submap");
                    for (auto& q : by[ps]) chk(q.first != p.first, "traversal visited a key twice");
                    by[ps].push_back(p);
                }
                for (size_t q = 0; q < ns; ++q) {
                    if (one && q != (size_t)r.sub) continue;
                    auto seen = by[q]; bool full = !r.threw; int64_t w = r.wr; int64_t KK = K;
                    if (r.threw && seen.empty()) continue;
                    add(q, r, [=](std::vector<int64_t>& st) {
                        size_t n = 0;
                        for (auto& p : seen) { if (st[off + (size_t)p.first] != p.second) return false; }
                        if (full) { for (int64_t i = 0; i < KK; ++i) if (subof[(size_t)i] == q && st[off + (size_t)i] >= 0) n++; if (n != seen.size()) return false; }
                        if (mod) for (auto& p : seen) st[off + (size_t)p.first] = w + p.first;
                        return true;
                    });
                }
                break;
            }
            case PO_CLEAR: case PO_CLEAR_IDX:
                chk(!r.threw, "clear threw");
                for (size_t q = 0; q < ns; ++q) {
                    if (r.code == PO_CLEAR_IDX && q != (size_t)r.sub) continue;
                    int64_t KK = K;
                    add(q, r, [=](std::vector<int64_t>& st) { for (int64_t i = 0; i < KK; ++i) if (subof[(size_t)i] == q) st[off + (size_t)i] = -1; return true; });
                }
                break;
            case PO_MERGE:
                if (r.threw) break;
                for (size_t q = 0; q < ns; ++q) {
                    int64_t KK = K;
                    add(q, r, [=](std::vector<int64_t>& st) {
                        for (int64_t i = 0; i < KK; ++i) if (subof[(size_t)i] == q && st[off + (size_t)i] < 0 && st[oth + (size_t)i] >= 0) { st[off + (size_t)i] = st[oth + (size_t)i]; st[oth + (size_t)i] = -1; }
                        return true; });
                }
                break;
            case PO_SWAP:
                if (r.wr % 7 == 0) break;
                for (size_t q = 0; q < ns; ++q) {
                    int64_t KK = K;
                    add(q, r, [=](std::vector<int64_t>& st) { for (int64_t i = 0; i < KK; ++i) if (subof[(size_t)i] == q) std::swap(st[off + (size_t)i], st[oth + (size_t)i]); return true; });
                }
                break;
            case PO_EQUAL:
                if (r.wr % 5 == 0) { chk(r.result == 1, "container compares unequal to itself"); break; }
                if (r.result == 1 || ns == 1)
                    for (size_t q = 0; q < ns; ++q) {
                        bool want = r.result == 1; int64_t KK = K;
                        add(q, r, [=](std::vector<int64_t>& st) { bool eq = true; for (int64_t i = 0; i < KK; ++i) if (subof[(size_t)i] == q && st[off + (size_t)i] != st[oth + (size_t)i]) eq = false; return eq == want; });
                    }
                break;
            default: break;
            }
        }
        for (size_t q = 0; q < ns; ++q) {
            if (g[q].empty()) continue;
            auto res = linearizable(g[q], init);
            count(res.exhausted ? "lin_budget_exhausted" : "lin_checked");
            if (!res.ok) {
                note("submap %zu history (not linearizable):", q);
                for (auto& o : g[q]) note("%s", o.text.c_str());
                fail("linearizability", "history of submap %zu (%zu operations) has no linearization", q, g[q].size());
            }
        }
    }

    void run(const Case& c) {
        K           = c.params[0];
        g_hash_mode = (int)c.params[1];
        slow        = (int)c.params[2];
        uint64_t pa = (uint64_t)c.params[3], pb = (uint64_t)c.params[4];
        int      throw_ok = 0; (void)throw_ok;
        {
            Active a;
            C[0] = sim_new<D>();
            C[1] = sim_new<D>();
        }
        std::vector<int64_t> init((size_t)(2 * K), -1);
        for (int i = 0; i < 2; ++i)
            for (int64_t k = 0; k < K; ++k)
                if (((i ? pb : pa) >> k) & 1) {
                    Active a;
                    if constexpr (MAP) C[i]->try_emplace(Obj(k), Obj(100 + k + i * 50)); else C[i]->insert(Obj(k));
                    Ignore g;
                    init[(size_t)(i * K + k)] = MAP ? 100 + k + i * 50 : 1;
                }
        // tombstones: erase and never re-insert some throw-away keys above K
        for (int64_t j = 0; j < c.params[5]; ++j) { Active a; C[0]->insert(mkval(K + j, 1)); C[0]->erase(Obj(K + j)); }
        int n = (int)c.threads.size();
        rec.clear();
        run_threads(n, [&](int tid) {
            for (size_t i = 0; i < c.threads[(size_t)tid - 1].size(); ++i) run_op(tid, (int)i, c.threads[(size_t)tid - 1][i]);
        });
        // final observation, sequential
        for (int i = 0; i < 2; ++i) {
            ParRec r; r.tid = 0; r.idx = i; r.code = PO_FOR_EACH; r.cont = i; r.key = 0; r.key2 = 0; r.wr = 0;
            r.inv = now_seq();
            size_t n_it = 0, sz;
            {
                Active a;
                std::as_const(*C[i]).for_each([&](const value_type& v) { { Ignore g; r.all.push_back({ 0, 0 }); } r.all.back() = { kof(v), vof(v) }; });
                for (auto it = C[i]->begin(); it != C[i]->end(); ++it) n_it++;
                sz = C[i]->size();
            }
            r.res = now_seq();
            if (sz != r.all.size() || n_it != sz) fail("consistency", "after quiescence size()=%zu, iteration=%zu, for_each=%zu", sz, n_it, r.all.size());
            std::vector<bool> has((size_t)K, false);
            for (auto& p : r.all) if (p.first >= 0 && p.first < K) has[(size_t)p.first] = true;
            for (int64_t k = 0; k < K; ++k) {
                bool f; { Obj ko(k); Active a; f = C[i]->contains(ko); }
                if (f != has[(size_t)k]) fail("consistency", "after quiescence contains(%lld)=%d but iteration %s it", (long long)k, f, has[(size_t)k] ? "shows" : "does not show");
            }
            for (auto& p : r.all) trace((uint64_t)(p.first * 1000 + p.second));
            rec.push_back(std::move(r));
        }
        check_history(init);
        rec.clear();
        rec.shrink_to_fit();
        {
            Active a;
            sim_delete(C[0]);
            sim_delete(C[1]);
        }
    }
};

// ---- generation
struct ParMix { int w[PO_COUNT_]; int fault_pct; int fault_kinds; int slow_max; };  // fault_kinds bitmask: 1 alloc, 2 ctor, 4 callback

inline void par_gen(Rng& r, Case& c, bool map, const ParMix& mx) {
    int64_t K = r.chance(1, 4) ? r.range(8, 20) : r.range(1, 5);
    int     hm = r.chance(1, 2) ? 0 : (int)r.below(5);
    uint64_t full = (1ull << K) - 1;
    uint64_t pa = r.chance(1, 3) ? 0 : r.next() & full, pb = r.chance(1, 2) ? 0 : r.next() & full;
    c.params = { K, hm, (int64_t)r.below((uint64_t)mx.slow_max + 1), (int64_t)pa, (int64_t)pb, r.chance(1, 4) ? r.range(1, 14) : 0 };
    int n = (int)r.range(2, r.chance(1, 4) ? 4 : 3);
    c.threads.resize((size_t)n);
    // focus: few distinct op kinds per run makes conflicts likely
    std::vector<int> pool;
    int tot = 0;
    for (int i = 0; i < PO_COUNT_; ++i) tot += mx.w[i];
    auto pick = [&]() { for (;;) { int x = (int)r.below((uint64_t)tot); for (int i = 0; i < PO_COUNT_; ++i) { if (x < mx.w[i]) { if (!map && po_map_only(i)) break; return i; } x -= mx.w[i]; } } };
    int np = r.chance(1, 2) ? (int)r.range(2, 5) : 0;
    for (int i = 0; i < np; ++i) pool.push_back(pick());
    int64_t uid = 1;
    int hotc = r.chance(2, 3) ? 1 : 2;   // containers in use
    int64_t hotk = r.chance(1, 2) ? 1 : K;
    int64_t hk0 = (int64_t)r.below((uint64_t)K);
    for (auto& t : c.threads) {
        int m = (int)r.range(1, r.chance(1, 4) ? 7 : 4);
        for (int i = 0; i < m; ++i) {
            Op o;
            o.code = pool.empty() ? pick() : pool[r.below(pool.size())];
            o.a = hotk == 1 ? (r.chance(4, 5) ? hk0 : (int64_t)r.below((uint64_t)K)) : (int64_t)r.below((uint64_t)K);
            o.b = (int64_t)r.below((uint64_t)hotc) | ((int64_t)r.below(64) << 1);
            o.c = (uid++) * 1000 + (int64_t)r.below(15);
            if (mx.fault_pct && r.chance(mx.fault_pct, 100)) {
                bool multi = o.code == PO_INSERT_RANGE || o.code == PO_INSERT_IL || o.code == PO_MERGE || o.code == PO_SWAP || o.code == PO_FOR_EACH_SEQ || o.code == PO_FOR_EACH_M_SEQ;  // (execution-policy algorithms terminate on exceptions by the standard)
                int k; do k = (int)r.below(3); while (!(mx.fault_kinds >> k & 1));
                if (!multi) { o.fk = k == 0 ? F_ALLOC : k == 1 ? F_CTOR : F_CALL; o.fn = (int)r.range(1, 3); }
            }
            t.push_back(o);
        }
    }
}

// property mixes
inline ParMix par_mix(int which) {
    ParMix m{};
    auto keyed = [&](int w) { for (int i = 0; i <= PO_INSERT_NODE; ++i) m.w[i] = w; m.w[PO_ERASE] = m.w[PO_ERASE_IF] = 4 * w; m.w[PO_IF_CONTAINS] = m.w[PO_MODIFY_IF] = 2 * w; m.w[PO_LAZY_EMPLACE_L] = m.w[PO_TRY_EMPLACE_L] = 2 * w; m.w[PO_EXTRACT] = 2 * w; };
    auto whole = [&](int w) { for (int i = PO_INSERT_RANGE; i < PO_COUNT_; ++i) m.w[i] = w; };
    switch (which) {
    case 0: keyed(4); m.w[PO_REHASH] = m.w[PO_CLEAR] = 1; m.slow_max = 1; break;                             // keyed linearizability
    case 1: keyed(1); for (int i : { PO_TRY_EMPLACE_L, PO_LAZY_EMPLACE_L, PO_ERASE_IF, PO_IF_CONTAINS, PO_MODIFY_IF, PO_LAZY_EMPLACE, PO_LAZY_EMPLACE_HASH, PO_TOGGLE }) m.w[i] = 8;
            for (int i : { PO_FOR_EACH, PO_FOR_EACH_M, PO_FOR_EACH_SEQ, PO_FOR_EACH_M_SEQ, PO_WITH_SUBMAP, PO_WITH_SUBMAP_M }) m.w[i] = 5; m.w[PO_REHASH] = m.w[PO_CLEAR] = m.w[PO_CLEAR_IDX] = 2; m.slow_max = 3; break;  // callbacks
    case 2: keyed(1); whole(8); m.slow_max = 1; break;                                                        // whole-container operations
    case 3: keyed(2); whole(6); m.fault_pct = 25; m.fault_kinds = 7; m.slow_max = 2; break;                   // progress with faults
    default: keyed(4); whole(1); m.fault_pct = 60; m.fault_kinds = 7; m.slow_max = 1; break;                  // failed operations leave no trace
    }
    return m;
}

} // namespace sim

#define PAR_HARNESS(NAME, TYPE, MAP) PAR_HARNESSX(NAME, TYPE, MAP, false)
#define PAR_HARNESSX(NAME, TYPE, MAP, LOCKF)                                                                           \
    static sim::Par<TYPE, MAP, LOCKF>& NAME##_p() { static sim::Par<TYPE, MAP, LOCKF>* p = new sim::Par<TYPE, MAP, LOCKF>(); return *p; } \
    static void NAME##_run(const sim::Case& c) { NAME##_p().mon = sim::Mon(); NAME##_p().run(c); }                \
    static void NAME##_gen0(sim::Rng& r, sim::Case& c) { sim::par_gen(r, c, MAP, sim::par_mix(0)); }             \
    static void NAME##_gen1(sim::Rng& r, sim::Case& c) { sim::par_gen(r, c, MAP, sim::par_mix(1)); }             \
    static void NAME##_gen2(sim::Rng& r, sim::Case& c) { sim::par_gen(r, c, MAP, sim::par_mix(2)); }             \
    static void NAME##_gen3(sim::Rng& r, sim::Case& c) { sim::par_gen(r, c, MAP, sim::par_mix(3)); }             \
    static void NAME##_gen4(sim::Rng& r, sim::Case& c) { sim::par_gen(r, c, MAP, sim::par_mix(4)); }             \
    static sim::Harness NAME##_h0{ "par0_" #NAME, NAME##_gen0, NAME##_run, sim::par_opname, nullptr };           \
    static sim::Harness NAME##_h1{ "par1_" #NAME, NAME##_gen1, NAME##_run, sim::par_opname, nullptr };           \
    static sim::Harness NAME##_h2{ "par2_" #NAME, NAME##_gen2, NAME##_run, sim::par_opname, nullptr };           \
    static sim::Harness NAME##_h3{ "par3_" #NAME, NAME##_gen3, NAME##_run, sim::par_opname, nullptr };           \
    static sim::Harness NAME##_h4{ "par4_" #NAME, NAME##_gen4, NAME##_run, sim::par_opname, nullptr };           \
    static sim::Reg NAME##_r0(&NAME##_h0), NAME##_r1(&NAME##_h1), NAME##_r2(&NAME##_h2), NAME##_r3(&NAME##_h3), NAME##_r4(&NAME##_h4);
