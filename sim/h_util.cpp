// Scope guards, value setters, change/replace and timestamps of gtl/utils.hpp: nested scopes
// are entered and left normally or by exceptions raised at arbitrary points; threads stamp
// their own objects concurrently.
#include "elem.h"
#include "gtl/utils.hpp"
#include <algorithm>
#include <memory>
#include <vector>
using namespace sim;

namespace {
enum { U_GUARD, U_SU, U_SETV, U_SETI, U_SETC, U_CHANGE, U_CHANGEI, U_CHANGEC, U_REPLACE, U_REPLACEI, U_REPLACEC, U_STAMP, U_STAMPV, U_THROW, U_END, U_TRY, U_N };
const char* uname_(int, int c) {
    static const char* n[] = { "scoped_guard {", "scoped_set_unset {", "scoped_set_value(Obj) {", "scoped_set_value(int) {", "scoped_set_value(converting) {", "change", "change(int)", "change(converting)", "replace", "replace(int)", "replace(converting)",
        "timestamp op", "set_with_ts", "throw", "}", "try {" };
    return c >= 0 && c < U_N ? n[c] : "?";
}
// a source whose conversion can fail, into a target whose own copies and moves cannot
struct Conv { int64_t v; };
struct NConv { int64_t v; };   // compares without failing
struct Tgt {
    int64_t v = 0;
    Tgt() noexcept = default;
    Tgt(const Tgt&) noexcept = default; Tgt(Tgt&& o) noexcept : v(o.v) { o.v = -99; }
    Tgt& operator=(const Tgt&) noexcept = default; Tgt& operator=(Tgt&& o) noexcept { v = o.v; if (&o != this) o.v = -99; return *this; }
    Tgt& operator=(const Conv& c) { if (fault_event(F_CALL)) throw Injected{ F_CALL }; v = c.v; return *this; }
    bool operator!=(const NConv& c) const noexcept { return v != c.v; }
    Tgt& operator=(const NConv& c) { if (fault_event(F_CALL)) throw Injected{ F_CALL }; v = c.v; return *this; }
    bool operator!=(const Conv& c) const { if (fault_event(F_CALL)) throw Injected{ F_CALL }; return v != c.v; }
    bool operator!=(const Tgt& c) const { return v != c.v; }
};
struct SConv { int64_t v; operator int64_t() const { if (fault_event(F_CALL)) throw Injected{ F_CALL }; return v; } };

struct St : gtl::timestamp { Obj x{ 0 }; };
struct Agg : gtl::provides_timestamp<Agg> { gtl::timestamp a, b; gtl::timestamp get_timestamp() const { return a | b; } };

struct Prog {
    Obj* o; int64_t mo = 1; int64_t i = 1, mi = 1; Tgt c; int64_t mc = 1;
    std::vector<std::unique_ptr<St>> st; std::vector<int64_t> ms;    // ms: model order number, 0 = unset
    Agg* agg; int64_t ma = 0, mb = 0;
    int64_t mclock = 0;
    const std::vector<Op>* ops; size_t pos = 0;
    int depth = 0;
    void vars(const char* w) {
        int64_t ov; { Active a; ov = val(*o); }
        if (ov != mo) fail("model", "after %s: the Obj variable is %lld, should be %lld", w, (long long)ov, (long long)mo);
        if (i != mi) fail("model", "after %s: the int variable is %lld, should be %lld", w, (long long)i, (long long)mi);
        if (c.v != mc) fail("model", "after %s: the converting variable is %lld, should be %lld", w, (long long)c.v, (long long)mc);
    }
    // run the body of a scope: until its end marker
    void body() {
        ++depth;
        struct D { Prog* p; ~D() { --p->depth; } } d{ this };
        while (pos < ops->size()) {
            const Op& op = (*ops)[pos++];
            if (op.code == U_END) return;
            one(op);
        }
    }
    void skip() {   // after an exception: skip to the matching end
        int d = 1;
        while (pos < ops->size() && d) { int k = (*ops)[pos++].code; if (k == U_END) --d; else if (k == U_GUARD || k == U_SU || (k >= U_SETV && k <= U_SETC) || k == U_TRY) ++d; }
    }
    template<class V, class X> void setv(const Op& op, V& var, int64_t& m, X src, const char* w) {
        bool doit = op.b & 1, dis = (op.b & 6) == 6, built = false, dismissed = false;
        int64_t old = m;
        arm(op);
        try {
            Active act;
            if (op.b & 8) { gtl::scoped_set_value<V> g(var, src, doit); { Ignore z; built = true; } in(op, doit, m, w, dis, dismissed, g); }
            else { gtl::scoped_set_value<V> g(var, std::move(src), doit); { Ignore z; built = true; } in(op, doit, m, w, dis, dismissed, g); }
        } catch (...) {
            disarm();
            if (doit && !(built && dismissed)) m = old;
            vars(built ? "leaving a scoped_set_value scope by an exception" : "a failed scoped_set_value");
            if (!built) { skip(); }
            throw;
        }
        disarm();
        if (doit && !dismissed) m = old;
        vars("leaving a scoped_set_value scope");
    }
    template<class G> void in(const Op& op, bool doit, int64_t& m, const char* w, bool dis, bool& dismissed, G& g) {
        Ignore z; disarm();
        if (doit) m = op.a;
        vars(w);
        if (dis) { dismissed = true; Active a; g.dismiss(); }
        body();
    }
    void stamps() {
        Active a;
        for (size_t p = 0; p < st.size(); ++p) {
            if (st[p]->is_set() != (ms[p] != 0)) fail("stamp", "is_set() of timestamp %zu is wrong", p);
            for (size_t q = 0; q < st.size(); ++q) {
                if (st[p]->is_newer_than(*st[q]) != (ms[p] > ms[q]) || st[p]->is_older_than(*st[q]) != (ms[p] < ms[q]) || (*st[p] == *st[q]) != (ms[p] == ms[q]) || (*st[p] < *st[q]) != (ms[p] < ms[q]) || (*st[p] > *st[q]) != (ms[p] > ms[q]))
                    fail("stamp", "timestamps %zu and %zu compare wrongly", p, q);
                if (((*st[p] | *st[q]) == (ms[p] > ms[q] ? *st[p] : *st[q])) == false) fail("stamp", "operator| of timestamps is not the most recent");
            }
            int64_t m = std::max(ma, mb);
            if (agg->is_newer_than(*st[p]) != (m > ms[p]) || agg->is_older_than(*st[p]) != (m < ms[p])) fail("stamp", "the timestamp of an aggregate compares wrongly");
            if (((*agg | *st[p]).get() == st[p]->get()) != (m <= ms[p]) || ((*agg | *st[p]).get() == agg->get_timestamp().get()) != (m >= ms[p])) fail("stamp", "operator| of an aggregate is not the most recent");
        }
    }
    void one(const Op& op) {
        trace_op(0, op.code, depth);
        switch (op.code) {
        case U_GUARD: case U_SU: {
            bool doit = op.b & 1, dis = (op.b & 6) == 6, built = false, dismissed = false, threw = false;
            int sets = 0, unsets = 0;
            bool su = op.code == U_SU;
            Obj* cap; { Active a; cap = sim_new<Obj>((int64_t)5); }
            struct Cleanup { Obj* p; ~Cleanup() { Active a; sim_delete(p); } } cl{ cap };
            auto inside = [&](auto& g) {
                Ignore z; disarm(); built = true;
                if (sets != (su && doit) || unsets) fail("guard", "on entering the scope set ran %d and unset %d times", sets, unsets);
                if (dis) { dismissed = true; Active a; g.dismiss(); }
                body();
                if (unsets) fail("guard", "unset ran before the end of the scope");
            };
            auto fset = [&] { if (fault_event(F_CALL)) throw Injected{ F_CALL }; sets++; if (val(*cap) != 5) fail("guard", "captured state lost"); };
            auto fun = [&, keep = Obj(7)] { unsets++; if (val(keep) != 7) fail("guard", "captured state lost"); };
            arm(op);
            try {
                Active act;
                if (su) { if (op.b & 8) { gtl::scoped_set_unset g(fset, std::move(fun), doit); inside(g); } else { auto f2 = fset; gtl::scoped_set_unset g(std::move(f2), std::move(fun), doit); inside(g); } }
                else if (!doit) { gtl::scoped_guard g(std::move(fun), false); inside(g); }
                else { gtl::scoped_guard g(std::move(fun)); inside(g); }
            } catch (...) { threw = true; disarm();
                int want = built && doit && !dismissed;
                if (unsets != want) fail("guard", "after an exception %s, unset ran %d times instead of %d", built ? "in the scope" : "from the setter", unsets, want);
                if (!built) skip();
                throw;
            }
            disarm();
            int want = doit && !dismissed;
            if (unsets != want || sets != (su && doit)) fail("guard", "after the scope set ran %d and unset %d times", sets, unsets);
            break;
        }
        case U_SETV: { Obj s(op.a); setv(op, *o, mo, std::move(s), "scoped_set_value"); break; }
        case U_SETI: setv(op, i, mi, SConv{ op.a }, "scoped_set_value"); break;
        case U_SETC: setv(op, c, mc, Conv{ op.a }, "scoped_set_value"); break;
        case U_TRY: try { body(); } catch (const Injected&) { } catch (const std::bad_alloc&) { } vars("catching"); break;
        case U_THROW: throw Injected{ F_CALL };
        case U_CHANGE: case U_CHANGEI: case U_CHANGEC: case U_REPLACE: case U_REPLACEI: case U_REPLACEC: {
            Obj s(op.a); bool rep = op.code >= U_REPLACE; int k = (op.code - U_CHANGE) % 3;
            int64_t& m = k == 0 ? mo : k == 1 ? mi : mc;
            int64_t got = 0;
            arm(op);
            try {
                Active act;
                if (!rep) got = k == 0 ? ((op.b & 1) ? gtl::change(*o, s) : gtl::change(*o, std::move(s))) : k == 1 ? gtl::change(i, SConv{ op.a }) : (op.b & 2) ? gtl::change(c, Conv{ op.a }) : gtl::change(c, NConv{ op.a });
                else if (k == 0) { Obj r = (op.b & 1) ? gtl::replace(*o, s) : gtl::replace(*o, std::move(s)); got = val(r); }
                else if (k == 1) got = gtl::replace(i, SConv{ op.a });
                else got = gtl::replace(c, Conv{ op.a }).v;
            } catch (...) {
                disarm();
                if (!fault_fired() && 0) fail("exception", "unexpected");
                if (rep) { Active a; if (k == 0) *o = Obj(mo); else if (k == 1) i = mi; else c.v = mc; }   // the old value may be lost, as with std::exchange
                vars("a failed change or replace");
                throw;
            }
            disarm();
            if (got != (rep ? m : (int64_t)(m != op.a))) fail("model", "%s returned %lld", uname_(0, op.code), (long long)got);
            m = op.a;
            vars(uname_(0, op.code));
            break;
        }
        case U_STAMP: {
            size_t p = (size_t)op.a % st.size(), q = (size_t)op.c % st.size();
            {
                Active act;
                switch (op.b % 9) {
                case 0: case 1: st[p]->touch(); ms[p] = ++mclock; break;
                case 2: st[p]->touch(*st[q]); ms[p] = ms[q]; break;
                case 3: st[p]->reset(); ms[p] = 0; break;
                case 4: *st[p] |= *st[q]; ms[p] = std::max(ms[p], ms[q]); break;
                case 5: { gtl::timestamp t; Ignore z; int64_t n = ++mclock; Active a; if (!t.is_newer_than(*st[p])) fail("stamp", "a new timestamp is not the most recent"); st[p]->touch(t); ms[p] = n; break; }
                case 6: agg->a.touch(); ma = ++mclock; break;
                case 7: agg->b.touch(*st[q]); mb = ms[q]; break;
                case 8: { gtl::timestamp t = st[q]->get_timestamp(); agg->a = t; ma = ms[q]; if (!(t.get() == st[q]->get())) fail("stamp", "get() differs"); break; }
                }
            }
            stamps();
            break;
        }
        case U_STAMPV: {
            size_t p = (size_t)op.c % st.size(); int64_t cur; bool r = false; { Active a; cur = val(st[p]->x); }
            Obj s(op.a % 3);
            arm(op);
            try { Active act; r = st[p]->set_with_ts(st[p]->x, s); }
            catch (...) { disarm(); int64_t now; { Active a; now = val(st[p]->x); } if (now != cur) fail("stamp", "failed set_with_ts changed the value"); stamps(); throw; }
            disarm();
            if (r != (cur != op.a % 3)) fail("stamp", "set_with_ts returned %d", (int)r);
            if (r) ms[p] = ++mclock;
            int64_t now; { Active a; now = val(st[p]->x); } if (now != op.a % 3) fail("stamp", "set_with_ts did not set the value");
            stamps();
            break;
        }
        }
    }
};
void urun(const Case& cs) {
    Prog* p = new Prog();
    { Active a; p->o = sim_new<Obj>((int64_t)1); p->agg = sim_new<Agg>(); }
    p->ma = ++p->mclock; p->mb = ++p->mclock;
    for (int q = 0; q < 3; ++q) { Active a; St* s = sim_new<St>(); Ignore g; p->st.emplace_back(s); p->ms.push_back(++p->mclock); }
    p->c.v = 1;
    p->ops = &cs.threads[0];
    p->stamps();
    while (p->pos < p->ops->size()) {
        try { p->body(); } catch (const Injected&) {} catch (const std::bad_alloc&) {}
        disarm();
        p->vars("the outermost scope");
    }
    Active a;
    for (auto& s : p->st) sim_delete(s.release());
    sim_delete(p->o); sim_delete(p->agg);
    Ignore g; delete p;
}
void ugen(Rng& r, Case& c) {
    c.threads.resize(1);
    int m = (int)r.range(3, 40), open = 0;
    int64_t uid = 10;
    bool thr = r.chance(1, 2); int fpct = r.chance(1, 3) ? 0 : 25;
    for (int q = 0; q < m; ++q) {
        Op o; uint64_t x = r.below(100);
        o.code = x < 45 ? (int)r.below(U_CHANGE) : x < 62 ? U_END : x < 67 ? U_TRY : x < 70 && thr ? U_THROW : (int)r.range(U_CHANGE, U_STAMPV);
        if (open > 6 && (o.code <= U_SETC || o.code == U_TRY)) o.code = U_END;
        if (o.code == U_END && !open) o.code = U_STAMP;
        if (o.code <= U_SETC || o.code == U_TRY) ++open;
        if (o.code == U_END) --open;
        o.a = o.code >= U_CHANGE && o.code <= U_REPLACEC && r.chance(1, 3) ? 1 : ++uid;
        o.b = (int64_t)r.below(64) | (r.chance(4, 5) ? 1 : 0); o.c = (int64_t)r.below(8);
        if ((int)r.below(100) < fpct && o.code != U_END && o.code != U_THROW && o.code != U_TRY && o.code != U_STAMP) {
            int k = (int)r.below(3);
            o.fk = k == 0 ? F_ALLOC : k == 1 ? F_CTOR : F_CALL; o.fn = (int)r.range(1, 3);
        }
        c.threads[0].push_back(o);
    }
}
// threads stamp their own objects: stamps are unique and respect real time across threads
struct TRec { int tid; uint64_t inv, res, stamp; };
void trun(const Case& cs) {
    int n = (int)cs.threads.size();
    static std::vector<TRec>* rec = new std::vector<TRec>();
    rec->clear();
    std::vector<St*> s((size_t)n + 1);
    for (int t = 1; t <= n; ++t) { Active a; s[(size_t)t] = sim_new<St>(); }
    run_threads(n, [&](int tid) {
        for (auto& o : cs.threads[(size_t)tid - 1]) {
            TRec r; r.tid = tid; r.inv = now_seq();
            { Active a; St& x = *s[(size_t)tid]; switch (o.a % 3) { case 0: x.touch(); r.stamp = x.get(); break; case 1: { gtl::timestamp t; r.stamp = t.get(); break; } default: x.set_with_ts(x.x, Obj(o.b)); r.stamp = x.get(); } }
            r.res = now_seq();
            rec->push_back(r);
            trace_op(tid, 0, 0);
        }
    });
    for (auto& a : *rec) for (auto& b : *rec) {
        if (&a == &b) continue;
        if (a.stamp == b.stamp) fail("stamp", "two modifications received the same timestamp (threads %d and %d)", a.tid, b.tid);
        if (a.res < b.inv && a.stamp >= b.stamp) fail("stamp", "a later modification (thread %d) has an older timestamp than an earlier one (thread %d)", b.tid, a.tid);
    }
    rec->clear(); rec->shrink_to_fit();
    Active a; for (int t = 1; t <= n; ++t) sim_delete(s[(size_t)t]);
}
void tgen(Rng& r, Case& c) {
    c.threads.resize((size_t)r.range(2, 3));
    int64_t uid = 1;
    for (auto& t : c.threads) { int m = (int)r.range(1, 5); for (int i = 0; i < m; ++i) { Op o; o.a = (int64_t)r.below(3); o.b = uid++; t.push_back(o); } }
}
const char* tname(int, int) { return "stamp"; }
Harness h1{ "util", ugen, urun, uname_, nullptr };
Harness h2{ "util_mt", tgen, trun, tname, nullptr };
Reg r1(&h1), r2(&h2);
}
