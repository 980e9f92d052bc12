// Lock guards (LockableBaseImpl): several simulated threads take, defer, adopt, try, move, swap
// and upgrade guards over two mutexes.  A guard owns exactly what it reports, each lock is
// released once and in the mode it was taken, also when acquiring a lock fails.
#include "elem.h"
#include "gtl/phmap.hpp"
#include <mutex>
#include <shared_mutex>
#include <system_error>

namespace {
using namespace sim;
constexpr int NM = 3;

// std::shared_mutex that remembers who holds it how, and whose acquisition can fail
struct TM : std::shared_mutex {
    int held[9] = {};     // by simulated thread: 0 no, 1 shared, 2 exclusive (bookkeeping only)
    NOINSTR int& h() { return held[self()]; }
    void bad(const char* what) { fail("guard", "thread %d calls %s on a mutex it holds in mode %d", self(), what, h()); }
    void lock() { if (fault_event(F_CALL)) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); std::shared_mutex::lock(); h() = 2; }
    bool try_lock() { bool r = std::shared_mutex::try_lock(); if (r) h() = 2; return r; }
    void unlock() { if (h() != 2) bad("unlock()"); h() = 0; std::shared_mutex::unlock(); }
    void lock_shared() { if (fault_event(F_CALL)) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); std::shared_mutex::lock_shared(); h() = 1; }
    bool try_lock_shared() { bool r = std::shared_mutex::try_lock_shared(); if (r) h() = 1; return r; }
    void unlock_shared() { if (h() != 1) bad("unlock_shared()"); h() = 0; std::shared_mutex::unlock_shared(); }
};
using Base = gtl::LockableBaseImpl<TM>;
using W = Base::WriteLock; using R = Base::ReadLock; using RW = Base::ReadWriteLock;

enum { G_NEW, G_DEFER, G_ADOPT, G_TRYNEW, G_LOCK, G_UNLOCK, G_TRYLOCK, G_MOVE, G_MOVECTOR, G_SWAP, G_RELOCK, G_UPGRADE, G_DROP, G_WLOCKS, G_RLOCKS, G_WADOPT, G_RADOPT, G_USE, G_N };
const char* gname(int, int c) {
    static const char* n[] = { "guard(m)", "guard(m,defer)", "guard(m,adopt)", "guard(m,try)", "lock", "unlock", "try_lock", "move-assign", "move-construct", "swap", "lock_shared/unlock_shared", "switch_to_unique", "drop",
        "WriteLocks", "ReadLocks", "WriteLocks(adopt)", "ReadLocks(adopt)", "use" };
    return c >= 0 && c < G_N ? n[c] : "?";
}
struct G { int m = -1, mode = 0; };
struct Shared { TM mu[NM]; int64_t a[NM] = {}, b[NM] = {}; };
struct Mine { W w[2]; R r[2]; RW rw[2]; };
Shared* sh;
struct Guards {
    Mine* s[9] = {};
    G     g[9][3][2];

    // what this thread holds through guards other than (k,i)
    bool held(int t, int m) { for (auto& k : g[t]) for (auto& x : k) if (x.m == m && x.mode) return true; return false; }
    bool may_block(int t, int m) { for (int q = m; q < NM; ++q) if (held(t, q)) return false; return true; }
    void observe(int t, const char* on) {
        Ignore ig;
        Mine& S = *s[t];
        int want[NM] = {};
        for (int i = 0; i < 2; ++i) {
            auto chk = [&](int k, TM* m, bool ex, bool shd) {
                G& x = g[t][k][i];
                if (m != (x.m < 0 ? nullptr : &sh->mu[x.m])) fail("guard", "after %s a guard refers to another mutex", on);
                if (ex != (x.mode == 2) || shd != (x.mode == 1)) fail("guard", "after %s a guard reports owning the lock %s, it is %s", on, ex ? "exclusively" : shd ? "shared" : "not", x.mode == 2 ? "exclusive" : x.mode ? "shared" : "not owned");
                if (x.mode) want[x.m] = x.mode;
            };
            chk(0, S.w[i].mutex(), S.w[i].owns_lock(), false);
            chk(1, S.r[i].mutex(), false, S.r[i].owns_lock());
            chk(2, S.rw[i].mutex(), S.rw[i].owns_lock(), S.rw[i].owns_shared_lock());
        }
        for (int q = 0; q < NM; ++q) if (sh->mu[q].held[t] != want[q]) fail("guard", "after %s thread %d holds mutex %d in mode %d, its guards say %d", on, t, q, sh->mu[q].held[t], want[q]);
    }
    static void use(int m, int mode) {
        if (m < 0 || !mode) return;
        if (mode == 2) { sh->a[m]++; point(); sh->b[m]++; if (sh->a[m] != sh->b[m]) fail("guard", "exclusive section interrupted by another writer"); }
        else { int64_t a = sh->a[m]; point(); if (a != sh->b[m]) fail("guard", "shared section saw a half-done update"); }
    }
    void op(int t, const Op& o) {
        Mine& S = *s[t];
        int k = (int)(o.a % 3), i = (int)(o.b & 1), j = (int)(o.c & 1), m = (int)((o.c >> 1) % NM), m2 = (int)((o.c >> 4) % NM);
        G& x = g[t][k][i]; G& y = g[t][k][j];
        auto with = [&](auto f) { if (k == 0) f(S.w[i], S.w[j]); else if (k == 1) f(S.r[i], S.r[j]); else f(S.rw[i], S.rw[j]); };
        const int ownmode = k == 0 ? 2 : 1;
        arm(o);
        int64_t trc = 0;
        try {
            Active act;
            TM& M = sh->mu[m];
            switch (o.code) {
            case G_NEW: if (!may_block(t, m)) break; with([&](auto& a, auto&) { a = std::decay_t<decltype(a)>(M); }); x = { m, ownmode }; break;
            case G_DEFER: with([&](auto& a, auto&) { a = std::decay_t<decltype(a)>(M, gtl::defer_lock_t()); }); x = { m, 0 }; break;
            case G_ADOPT: if (k == 2 || !may_block(t, m)) break; if (k == 0) { M.lock(); S.w[i] = W(M, gtl::adopt_lock_t()); } else { M.lock_shared(); S.r[i] = R(M, gtl::adopt_lock_t()); } x = { m, ownmode }; break;
            case G_TRYNEW: if (k == 2 || held(t, m)) break; if (k == 0) S.w[i] = W(M, gtl::try_to_lock_t()); else S.r[i] = R(M, gtl::try_to_lock_t()); x = { m, sh->mu[m].held[t] }; trc = x.mode; break;
            case G_LOCK: if (x.m < 0 || (!x.mode && !may_block(t, x.m)) || (k == 2 && x.mode == 1)) break; with([&](auto& a, auto&) { a.lock(); }); if (k == 2) x.mode = 2; else x.mode = ownmode; break;
            case G_UNLOCK: if (x.m < 0 || (k == 2 && x.mode == 1)) break; with([&](auto& a, auto&) { a.unlock(); }); x.mode = 0; break;
            case G_TRYLOCK: {
                if (k == 2 || x.m < 0 || (!x.mode && held(t, x.m))) break;
                bool r = k == 0 ? S.w[i].try_lock() : S.r[i].try_lock();
                x.mode = sh->mu[x.m].held[t]; trc = r;
                if (r != (x.mode != 0)) fail("guard", "try_lock returned %d although the lock is %s", (int)r, x.mode ? "held" : "not held");
                break;
            }
            case G_MOVE: if (i == j) break; with([&](auto& a, auto& b) { a = std::move(b); }); x = y; y = G(); break;
            case G_MOVECTOR: if (i == j) break; with([&](auto& a, auto& b) { std::decay_t<decltype(a)> tmp(std::move(b)); a.swap(tmp); }); x = y; y = G(); break;
            case G_SWAP: with([&](auto& a, auto& b) { a.swap(b); }); std::swap(x, y); break;
            case G_RELOCK: if (k != 2 || x.m < 0 || x.mode == 2) break; if (x.mode == 1 && (o.c & 64)) { S.rw[i].unlock_shared(); x.mode = 0; } else { if (!x.mode && !may_block(t, x.m)) break; S.rw[i].lock_shared(); x.mode = 1; } break;
            case G_UPGRADE: {
                if (k != 2) { bool r = false; with([&](auto& a, auto&) { r = a.switch_to_unique(); }); if (r) fail("guard", "switch_to_unique of a one-mode guard returned true"); break; }
                if (x.mode != 1) break;
                int q = x.m; x.mode = 0; bool ok = may_block(t, q); x.mode = 1;
                if (!ok) break;
                x.mode = 0;
                if (!S.rw[i].switch_to_unique()) fail("guard", "switch_to_unique returned false");
                x.mode = 2;
                break;
            }
            case G_DROP: with([&](auto& a, auto&) { a = std::decay_t<decltype(a)>(); }); x = G(); break;
            case G_WLOCKS: case G_WADOPT: {
                if (held(t, 0) || held(t, 1) || held(t, 2)) break;    // two-mutex guards are taken with nothing held
                TM& M2 = sh->mu[m2];
                if (o.code == G_WADOPT) { M.lock(); try { if (&M2 != &M) { if (!M2.try_lock()) { M.unlock(); break; } } } catch (...) { M.unlock(); throw; } Base::WriteLocks l(gtl::adopt_lock_t(), M, M2); use(m, 2); use(m2, 2); break; }
                Base::WriteLocks l(M, M2);
                if (M.held[t] != 2 || M2.held[t] != 2) fail("guard", "WriteLocks does not hold both mutexes");
                use(m, 2); use(m2, 2);
                break;
            }
            case G_RLOCKS: case G_RADOPT: {
                if (held(t, 0) || held(t, 1) || held(t, 2)) break;
                TM& M2 = sh->mu[m2];
                if (o.code == G_RADOPT) { M.lock_shared(); if (&M2 != &M && !M2.try_lock_shared()) { M.unlock_shared(); break; } Base::ReadLocks l(gtl::adopt_lock_t(), M, M2); use(m, 1); use(m2, 1); break; }
                Base::ReadLocks l(M, M2);
                if (M.held[t] != 1 || M2.held[t] != 1) fail("guard", "ReadLocks does not hold both mutexes");
                use(m, 1); use(m2, 1);
                break;
            }
            case G_USE: for (auto& kk : g[t]) for (auto& z : kk) use(z.m, z.mode); break;
            }
        } catch (const std::system_error&) {
            if (!fault_fired()) fail("exception", "%s threw without an injected failure", gname(0, o.code));
            count("failed_ops");
        }
        disarm();
        trace_op(t, o.code, trc * 7 + x.mode);
        observe(t, gname(0, o.code));
    }
    void run(const Case& c) {
        { Active a; sh = sim_new<Shared>(); }
        int n = (int)c.threads.size();
        for (int t = 1; t <= n; ++t) { Active a; s[t] = sim_new<Mine>(); for (auto& k : g[t]) for (auto& x : k) x = G(); }
        run_threads(n, [&](int t) {
            for (auto& o : c.threads[(size_t)t - 1]) op(t, o);
            { Active a; sim_delete(s[t]); }
            if (held_locks(t)) fail("guard", "thread %d still holds a lock after all its guards are gone", t);
            for (int q = 0; q < NM; ++q) if (sh->mu[q].held[t]) fail("guard", "a lock survives its guard");
        });
        { Active a; sim_delete(sh); }
    }
};
void ggen(Rng& r, Case& c) {
    int n = (int)r.range(1, 3);
    c.threads.resize((size_t)n);
    int fp = r.chance(1, 2) ? 0 : 25;
    for (auto& t : c.threads) {
        int len = (int)r.range(2, 14);
        for (int i = 0; i < len; ++i) {
            Op o;
            o.code = r.chance(1, 4) ? (int)G_USE : (int)r.below(G_N);
            o.a = (int64_t)r.below(3); o.b = (int64_t)r.below(2); o.c = (int64_t)r.below(128);
            if (r.chance(fp, 100)) { o.fk = F_CALL; o.fn = (int)r.range(1, 2); }
            t.push_back(o);
        }
    }
}
void grun(const Case& c) { static Guards* p = new Guards(); p->run(c); }
Harness gh{ "guard", ggen, grun, gname, nullptr };
Reg gr(&gh);
} // namespace
