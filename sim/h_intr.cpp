// intrusive_ptr / intrusive_ref_counter: several simulated threads copy, move, cast, pass
// and drop pointers to shared nodes.  Each node must live exactly as long as some pointer
// refers to it; counts are exact at quiescence; no interleaving races or leaks.
#include "elem.h"
#include "gtl/intrusive.hpp"
#include <mutex>
#include <memory>

namespace {
using namespace sim;

template<class POL> struct Node : gtl::intrusive_ref_counter<Node<POL>, POL> {
    int64_t id, kind;
    gtl::intrusive_ptr<Node> next;
    Obj     payload;
    Node(int64_t i, int64_t k) : id(i), kind(k), payload(i * 10) {}
    Node(int64_t i, const gtl::intrusive_ptr<Node>& n) : id(i), kind(0), next(n), payload(i * 10) {}
    Node(const Node& o) = default;
    Node& operator=(const Node& o) { gtl::intrusive_ref_counter<Node<POL>, POL>::operator=(o); next = o.next; return *this; }
    virtual ~Node() { payload.set(-5); }
};
template<class POL> struct Der : Node<POL> {
    Obj extra;
    explicit Der(int64_t i) : Node<POL>(i, 1), extra(i * 10 + 1) {}
    ~Der() override { extra.set(-6); }
};

enum { I_NEW, I_NEWD, I_COPY, I_MOVE, I_CCTOR, I_MCTOR, I_SELF, I_SELFMOVE, I_RAW, I_RESET, I_RESETP, I_RESETF, I_ADOPT, I_SWAP, I_UP, I_UPMOVE, I_UPCTOR, I_UPMCTOR, I_SDOWN, I_SDOWNM,
       I_DDOWN, I_DDOWNM, I_CONST, I_CONSTM, I_UNCONST, I_UNCONSTM, I_PUT, I_PUTM, I_TAKE, I_TAKEC, I_SHARED, I_READ, I_COUNT, I_CMP, I_CLONE, I_DROPALL, I_CONS, I_ADV, I_ADVR, I_ADVM, I_ASSIGN, I_N };
const char* iname(int, int c) {
    static const char* n[] = { "new", "new derived", "copy-assign", "move-assign", "copy-construct", "move-construct", "self-assign", "self-move-assign", "assign raw pointer", "reset()", "reset(p)", "reset(p,false)", "detach+adopt",
        "swap", "assign derived", "move-assign derived", "construct from derived", "move-construct from derived", "static_pointer_cast", "static_pointer_cast(&&)", "dynamic_pointer_cast", "dynamic_pointer_cast(&&)", "assign to const",
        "move-assign to const", "const_pointer_cast", "const_pointer_cast(&&)", "publish", "publish(move)", "take(move)", "take(copy)", "copy shared const pointer", "read through", "use_count", "compare/hash", "copy node", "drop all", "new in front", "p = p->next", "p = p->next.get()", "p = move(p->next)", "assign node" };
    return c >= 0 && c < I_N ? n[c] : "?";
}

template<class POL> struct Intr {
    using N = Node<POL>; using D = Der<POL>;
    template<class T> using P = gtl::intrusive_ptr<T>;
    static constexpr int NB = 2, ND = 2, NC = 1, MB = 2;
    struct Slots { P<N> n[NB]; P<D> d[ND]; P<const N> c[NC]; };
    struct Model { N* n[NB] = {}; D* d[ND] = {}; const N* c[NC] = {}; };
    struct Shared { std::mutex mu; P<N> mail[MB]; P<N> fixed; };
    Slots*  s[9] = {};
    Model   m[9];
    Shared* sh = nullptr;
    N*      mmail[MB] = {};
    int64_t next_id = 1;
    bool    mt = false;
    std::map<const N*, N*> nextm;     // what the next pointer of each node refers to
    N* nx(const N* p) { Ignore g; auto it = nextm.find(p); return it == nextm.end() ? nullptr : it->second; }
    void setnx(const N* p, N* n) { Ignore g; nextm[p] = n; }
    bool reaches(const N* a, const N* b) { for (; a; a = nx(a)) if (a == b) return true; return false; }

    void op(int tid, const Op& o) {
        Slots& S = *s[tid]; Model& M = m[tid];
        int i = (int)(o.a % NB), j = (int)(o.b % NB), di = (int)(o.a % ND), dj = (int)(o.b % ND), mb = (int)(o.c % MB);
        int64_t id = next_id++;
        arm(o);
        int64_t trc = 0;
        try {
            Active act;
            switch (o.code) {
            case I_NEW: { N* p = new N(id, 0); setnx(p, nullptr); S.n[i] = P<N>(p); M.n[i] = p; break; }
            case I_NEWD: { D* p = new D(id); setnx(p, nullptr); S.d[di].reset(p); M.d[di] = p; break; }
            case I_COPY: S.n[i] = S.n[j]; M.n[i] = M.n[j]; break;
            case I_MOVE: S.n[i] = std::move(S.n[j]); if (i != j) { M.n[i] = M.n[j]; M.n[j] = nullptr; } break;
            case I_CCTOR: { P<N> t(S.n[j]); S.n[i].swap(t); M.n[i] = M.n[j]; break; }
            case I_MCTOR: { P<N> t(std::move(S.n[j])); N* p = M.n[j]; M.n[j] = nullptr; { P<N> u; swap(u, t); S.n[i] = u; } M.n[i] = p; break; }
            case I_SELF: { P<N>& r = S.n[i]; S.n[i] = r; break; }
            case I_SELFMOVE: { P<N>& r = S.n[i]; S.n[i] = std::move(r); break; }
            case I_RAW: S.n[i] = S.n[j].get(); M.n[i] = M.n[j]; break;
            case I_RESET: if (o.c & 1) { S.n[i].reset(); M.n[i] = nullptr; } else { S.d[di].reset(); M.d[di] = nullptr; } break;
            case I_RESETP: S.n[i].reset(S.n[j].get()); M.n[i] = M.n[j]; break;
            case I_RESETF: { N* p = S.n[j].detach(); N* mp = M.n[j]; M.n[j] = nullptr; if (p != mp) fail("model", "detach returned another pointer"); S.n[i].reset(p, false); M.n[i] = mp; break; }
            case I_ADOPT: { N* p = S.n[j].detach(); N* mp = M.n[j]; M.n[j] = nullptr; if (S.n[j]) fail("model", "detach left the pointer set"); P<N> t(p, false); S.n[i] = std::move(t); if (t.get()) fail("model", "moved-from pointer not null"); M.n[i] = mp; break; }
            case I_SWAP: if (o.c & 1) S.n[i].swap(S.n[j]); else swap(S.n[i], S.n[j]); std::swap(M.n[i], M.n[j]); break;
            case I_UP: S.n[i] = S.d[dj]; M.n[i] = M.d[dj]; break;
            case I_UPMOVE: S.n[i] = std::move(S.d[dj]); M.n[i] = M.d[dj]; M.d[dj] = nullptr; break;
            case I_UPCTOR: { P<N> t(S.d[dj]); S.n[i] = t; M.n[i] = M.d[dj]; break; }
            case I_UPMCTOR: { P<N> t(std::move(S.d[dj])); M.n[i] = M.d[dj]; M.d[dj] = nullptr; S.n[i] = std::move(t); break; }
            case I_SDOWN: if (M.n[j] && M.n[j]->kind == 1) { S.d[di] = gtl::static_pointer_cast<D>(S.n[j]); M.d[di] = (D*)M.n[j]; } break;
            case I_SDOWNM: if (M.n[j] && M.n[j]->kind == 1) { S.d[di] = gtl::static_pointer_cast<D>(std::move(S.n[j])); M.d[di] = (D*)M.n[j]; M.n[j] = nullptr; } break;
            case I_DDOWN: { bool is = M.n[j] && M.n[j]->kind == 1; S.d[di] = gtl::dynamic_pointer_cast<D>(S.n[j]); M.d[di] = is ? (D*)M.n[j] : nullptr; break; }
            case I_DDOWNM: { bool is = M.n[j] && M.n[j]->kind == 1; S.d[di] = gtl::dynamic_pointer_cast<D>(std::move(S.n[j])); M.d[di] = is ? (D*)M.n[j] : nullptr; if (is) M.n[j] = nullptr; break; }
            case I_CONST: S.c[0] = S.n[j]; M.c[0] = M.n[j]; break;
            case I_CONSTM: S.c[0] = P<const N>(std::move(S.n[j])); M.c[0] = M.n[j]; M.n[j] = nullptr; break;
            case I_UNCONST: S.n[i] = gtl::const_pointer_cast<N>(S.c[0]); M.n[i] = const_cast<N*>(M.c[0]); break;
            case I_UNCONSTM: S.n[i] = gtl::const_pointer_cast<N>(std::move(S.c[0])); M.n[i] = const_cast<N*>(M.c[0]); M.c[0] = nullptr; break;
            case I_PUT: { std::lock_guard g(sh->mu); sh->mail[mb] = S.n[j]; mmail[mb] = M.n[j]; break; }
            case I_PUTM: { std::lock_guard g(sh->mu); sh->mail[mb] = std::move(S.n[j]); mmail[mb] = M.n[j]; M.n[j] = nullptr; break; }
            case I_TAKE: { std::lock_guard g(sh->mu); S.n[i] = std::move(sh->mail[mb]); M.n[i] = mmail[mb]; mmail[mb] = nullptr; break; }
            case I_TAKEC: { std::lock_guard g(sh->mu); S.n[i] = sh->mail[mb]; M.n[i] = mmail[mb]; break; }
            case I_SHARED: S.n[i] = sh->fixed; M.n[i] = sh->fixed.get(); break;
            case I_READ: for (int q = 0; q < NB; ++q) if (S.n[q]) { if (val(S.n[q]->payload) != (*S.n[q]).id * 10) fail("model", "node content changed"); trc += S.n[q]->id; }
                for (int q = 0; q < ND; ++q) if (S.d[q]) { if (val(S.d[q]->extra) != S.d[q]->id * 10 + 1) fail("model", "node content changed"); } break;
            case I_COUNT: if (S.n[i]) {
                    unsigned own = 0; for (int q = 0; q < NB; ++q) own += M.n[q] == M.n[i]; for (int q = 0; q < ND; ++q) own += M.d[q] == M.n[i]; for (int q = 0; q < NC; ++q) own += M.c[q] == M.n[i];
                    unsigned uc = S.n[i]->use_count();
                    if (uc < own || uc > 200) fail("count", "use_count() is %u while this thread alone holds %u references", uc, own);
                } break;
            case I_CMP: {
                bool e = M.n[i] == M.n[j];
                if ((S.n[i] == S.n[j]) != e || (S.n[i] != S.n[j]) == e || (S.n[i] == S.n[j].get()) != e || (S.n[j].get() == S.n[i]) != e) fail("model", "comparison of pointers is wrong");
                if ((S.n[i] == nullptr) != !M.n[i] || (nullptr != S.n[i]) != !!M.n[i] || (nullptr == S.n[i]) != !M.n[i] || (S.n[i] != nullptr) != !!M.n[i] || !S.n[i] != !M.n[i] || (bool)S.n[i] != !!M.n[i]) fail("model", "comparison with nullptr is wrong");
                if ((S.n[i] < S.n[j]) != std::less<N*>()(M.n[i], M.n[j])) fail("model", "ordering is wrong");
                if (e && (std::hash<P<N>>()(S.n[i]) != std::hash<P<N>>()(S.n[j]) || hash_value(S.n[i]) != hash_value(S.n[j]))) fail("model", "equal pointers hash differently");
                if ((S.n[i] != S.n[j].get()) == e || (S.n[j].get() != S.n[i]) == e || get_pointer(S.n[i]) != M.n[i]) fail("model", "comparison with a raw pointer is wrong");
                if ((S.d[di] != S.n[i]) == (static_cast<N*>(M.d[di]) == M.n[i]) || (S.c[0] == S.n[i]) != (M.c[0] == M.n[i])) fail("model", "comparison of pointers is wrong");
                if ((S.d[di] == S.n[i]) != (static_cast<N*>(M.d[di]) == M.n[i])) fail("model", "comparison of pointers is wrong");
                break;
            }
            case I_CLONE: if (M.n[j]) { N* p = new N(*S.n[j]); p->kind = 0; if (p->use_count() != 0) fail("count", "a copied node starts with %u references", p->use_count()); setnx(p, nx(M.n[j])); S.n[i] = p; M.n[i] = p; } break;
            case I_DROPALL: for (auto& x : S.n) x.reset(); for (auto& x : S.d) x = P<D>(); for (auto& x : S.c) x.reset(); { Ignore g; M = Model(); } break;
            // lists: the pointer assigned from belongs to the node the assignment may destroy
            case I_CONS: { N* p = new N(id, S.n[j]); setnx(p, M.n[j]); S.n[i] = p; M.n[i] = p; break; }
            case I_ADV: if (M.n[i]) { N* t = nx(M.n[i]); S.n[i] = S.n[i]->next; M.n[i] = t; } break;
            case I_ADVR: if (M.n[i]) { N* t = nx(M.n[i]); if (o.c & 1) S.n[i] = S.n[i]->next.get(); else S.n[i].reset(S.n[i]->next.get()); M.n[i] = t; } break;
            case I_ADVM: if (M.n[i] && !mt) { N* q = M.n[i]; N* t = nx(q); setnx(q, nullptr); S.n[i] = std::move(S.n[i]->next); M.n[i] = t; } break;
            case I_ASSIGN: if (M.n[i] && M.n[j] && !mt && !reaches(nx(M.n[j]), M.n[i])) { unsigned u = S.n[i]->use_count(); bool same = nx(M.n[i]) == nx(M.n[j]); *S.n[i] = *S.n[j]; setnx(M.n[i], nx(M.n[j])); if (same && S.n[i]->use_count() != u) fail("count", "assigning to a node changed its count from %u to %u", u, S.n[i]->use_count()); } break;
            }
        } catch (const std::bad_alloc&) { if (!fault_fired()) fail("exception", "bad_alloc without fault");
        } catch (const Injected&) {}
        disarm();
        cmp(tid);
        trace_op(tid, o.code, trc);
    }
    void cmp(int tid) {
        Slots& S = *s[tid]; Model& M = m[tid];
        for (int q = 0; q < NB; ++q) if (S.n[q].get() != M.n[q]) fail("model", "pointer %d of thread %d refers to another node than it should", q, tid);
        for (int q = 0; q < ND; ++q) if (S.d[q].get() != M.d[q]) fail("model", "derived pointer %d of thread %d refers to another node than it should", q, tid);
        for (int q = 0; q < NC; ++q) if (S.c[q].get() != M.c[q]) fail("model", "const pointer %d of thread %d refers to another node than it should", q, tid);
    }
    void run(const Case& c) {
        next_id = 1;
        int n = (int)c.threads.size();
        mt = n > 1;
        nextm.clear();
        for (auto& x : m) x = Model();
        for (auto& x : mmail) x = nullptr;
        {
            Active a;
            sh = sim_new<Shared>();
            N* p = new N(next_id++, 0);
            sh->fixed = P<N>(p);
            for (int t = mt ? 1 : 0; t <= (mt ? n : 0); ++t) {
                s[t] = sim_new<Slots>();
                if (c.params[0] & 1) { D* d = new D(next_id++); s[t]->d[0] = P<D>(d); m[t].d[0] = d; }
                if (c.params[0] & 2) { s[t]->n[0] = sh->fixed; m[t].n[0] = p; }
            }
            if (c.params[0] & 4) { N* q = new N(next_id++, 0); sh->mail[0] = P<N>(q); mmail[0] = q; }
            if (c.params[0] & 8) { D* q = new D(next_id++); sh->mail[1] = P<D>(q); mmail[1] = q; }
        }
        if (!mt) for (auto& o : c.threads[0]) op(0, o);
        else run_threads(n, [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) op(tid, o); });
        // quiescent: counts are exact
        std::map<const void*, unsigned> cnt; std::map<const void*, const N*> who;
        auto ref = [&](const N* p) { if (p) { cnt[p]++; who[p] = p; } };
        for (int t = 0; t <= 8; ++t) if (s[t]) { for (auto p : m[t].n) ref(p); for (auto p : m[t].d) ref(p); for (auto p : m[t].c) ref(p); }
        for (auto p : mmail) ref(p);
        ref(sh->fixed.get());
        for (auto p : std::map<const void*, const N*>(who)) for (const N* q = nx(p.second); q; q = nx(q)) { bool seen = who.count(q) != 0; ref(q); if (seen) break; }
        for (auto& kv : who) { unsigned u; { Active a; u = kv.second->use_count(); } if (u != cnt[kv.first]) fail("count", "node has use_count() %u but %u pointers refer to it", u, cnt[kv.first]); }
        {
            Active a;
            for (int t = 0; t <= 8; ++t) if (s[t]) { sim_delete(s[t]); s[t] = nullptr; }
            sim_delete(sh); sh = nullptr;
        }
    }
};

void gen(Rng& r, Case& c, bool mt) {
    c.params = { (int64_t)r.below(16) };
    int n = mt ? (int)r.range(2, 4) : 1;
    c.threads.resize((size_t)n);
    int pool = r.chance(1, 2) ? 0 : (int)r.range(3, 6);
    std::vector<int> ops;
    auto pick = [&]() { for (;;) { int x = (int)r.below(I_N); if (!mt && x >= I_PUT && x <= I_TAKEC && r.chance(1, 2)) continue; return x; } };
    for (int i = 0; i < pool; ++i) ops.push_back(pick());
    if (pool && mt) { ops.push_back(I_TAKEC); ops.push_back(I_RESET); }
    for (auto& t : c.threads) {
        int m = mt ? (int)r.range(1, 10) : (int)r.range(3, 60);
        for (int i = 0; i < m; ++i) {
            Op o;
            o.code = ops.empty() ? pick() : ops[r.below(ops.size())];
            o.a = (int64_t)r.below(8); o.b = (int64_t)r.below(8); o.c = (int64_t)r.below(8);
            if (o.code <= I_NEWD || o.code == I_CLONE) if (r.chance(1, 6)) { o.fk = r.chance(1, 2) ? F_ALLOC : F_CTOR; o.fn = (int)r.range(1, 3); }
            t.push_back(o);
        }
    }
}
void gen_mt(Rng& r, Case& c) { gen(r, c, true); }
void gen_st(Rng& r, Case& c) { gen(r, c, false); }
template<class POL> void irun(const Case& c) { static Intr<POL>* p = new Intr<POL>(); for (auto& x : p->s) x = nullptr; p->run(c); }
Harness h1{ "intr_mt", gen_mt, irun<gtl::thread_safe_counter>, iname, nullptr };
Harness h2{ "intr_st", gen_st, irun<gtl::thread_safe_counter>, iname, nullptr };
Harness h3{ "intr_un", gen_st, irun<gtl::thread_unsafe_counter>, iname, nullptr };
Reg r1(&h1), r2(&h2), r3(&h3);
}
