// gtl::soa: rows spread over several columns must stay whole under any history of
// insertions, resizes, sorts, copies and failures; distinct soas are independent even when
// threads sort them at the same time.
#include "elem.h"
#include "gtl/soa.hpp"
#include <array>
#include <memory>
#include <sstream>
using namespace sim;

namespace {
enum { O_INS, O_INS2, O_RESIZE, O_RESERVE, O_CLEAR, O_SORT, O_SORTC, O_WRITE, O_VIEW, O_COL, O_COPY, O_COPYA, O_MOVE, O_MOVEA, O_SWAP, O_PRINT, O_N };
const char* sname(int, int c) {
    static const char* n[] = { "insert", "insert several", "resize", "reserve", "clear", "sort_by_field", "sort_by_field(comp)", "write through []", "write through view", "write through column", "copy construct", "copy assign", "move construct",
        "move assign", "swap", "print" };
    return c >= 0 && c < O_N ? n[c] : "?";
}
struct Plain { int64_t v; };
template<class T> int64_t rd(const T& x) { if constexpr (std::is_same_v<T, Obj>) return val(x); else if constexpr (std::is_same_v<T, std::string>) return (int64_t)x.size() - (x.empty() ? 0 : (x[0] - 'a')); else return (int64_t)x; }
template<class T> T mkv(int64_t v) { if constexpr (std::is_same_v<T, std::string>) { int64_t q = v % 13; return std::string((size_t)(v + q), (char)('a' + q)); } else return T(v); }

template<class... Ts> struct Soa {
    using S = gtl::soa<Ts...>;
    static constexpr size_t N = sizeof...(Ts);
    using Row = std::array<int64_t, N>;
    using Model = std::vector<Row>;
    static constexpr int NC = 3;
    struct State { S* c[NC] = {}; Model m[NC]; int64_t nid = 1; bool mt = false; };
    template<size_t I> using Col = std::tuple_element_t<I, std::tuple<Ts...>>;

    static Row mkrow(State& s, uint64_t a) {
        Row r;
        for (size_t i = 0; i < N; ++i) r[i] = i == N - 1 ? s.nid++ : (int64_t)((a >> (i * 7)) % 9);   // last column: unique id; others: many ties
        return r;
    }
    template<size_t... I> static void ins(S& x, const Row& r, std::index_sequence<I...>) { x.insert(mkv<Col<I>>(r[I])...); }
    static void observe(State& s, int i, const char* op) {
        const Model& m = s.m[i];
        Active a;
        const S& x = *s.c[i];
        if (x.size() != m.size() || x.empty() != m.empty()) fail("model", "after %s: soa %d has size() %zu, should be %zu", op, i, x.size(), m.size());
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((x.template get_column<I>().size() == m.size() ? (void)0 : fail("torn-row", "after %s: column %zu of soa %d has %zu values but there are %zu rows", op, I, i, x.template get_column<I>().size(), m.size())), ...);
            for (size_t r = 0; r < m.size(); ++r) {
                auto t = x[r];
                ((rd(std::get<I>(t)) == m[r][I] ? (void)0 : fail("model", "after %s: row %zu column %zu of soa %d holds %lld, should be %lld", op, r, I, i, (long long)rd(std::get<I>(t)), (long long)m[r][I])), ...);
                auto v = x.template view<N - 1, 0>(r);
                if (rd(std::get<0>(v)) != m[r][N - 1] || rd(std::get<1>(v)) != m[r][0]) fail("model", "after %s: view of row %zu of soa %d is wrong", op, r, i);
            }
        }(std::make_index_sequence<N>{});
    }
    template<class F> static void withcol(size_t k, F f) {
        [&]<size_t... I>(std::index_sequence<I...>) { ((k == I ? (f(std::integral_constant<size_t, I>{}), 0) : 0), ...); }(std::make_index_sequence<N>{});
    }
    static void step(State& s, int tid, const Op& op) {
        int i = (int)(op.b % NC), j = (int)((op.b >> 4) % NC);
        uint64_t aux = (uint64_t)op.c;
        size_t col = (size_t)(aux % N);
        S& x = *s.c[i]; S& y = *s.c[j];
        Model t = s.m[i];
        size_t n = t.size();
        bool touch_j = false; Model tj = s.m[j];
        std::vector<Row> rows;
        int nins = op.code == O_INS ? 1 : op.code == O_INS2 ? (int)(aux % (op.a & 64 ? 70 : 6)) : 0;
        for (int q = 0; q < nins; ++q) { Rng r(aux + (uint64_t)q); rows.push_back(mkrow(s, r.next())); }
        Row w{}; if (op.code >= O_WRITE && op.code <= O_COL) w = mkrow(s, aux * 77);
        S* fresh = nullptr; bool threw = false; std::string out; Model part;
        int cmpk = (int)(aux / 8 % 4);
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case O_INS: case O_INS2:
                for (auto& r : rows) { ins(x, r, std::make_index_sequence<N>{}); Ignore g; t.push_back(r); }
                break;
            case O_RESIZE: { size_t z = (size_t)(op.a % 90); if (op.a % 3) z = n + (size_t)(op.a % 7) < 3 ? 0 : n + (size_t)(op.a % 7) - 3; x.resize(z); Ignore g; t.resize(z); break; }
            case O_RESERVE: x.reserve((size_t)(op.a % 100)); break;
            case O_CLEAR: x.clear(); { Ignore g; t.clear(); } break;
            case O_SORT: withcol(col, [&](auto I) { x.template sort_by_field<I()>(); }); { Ignore g; std::stable_sort(t.begin(), t.end(), [&](const Row& a, const Row& b) { return a[col] < b[col]; }); } break;
            case O_SORTC: {
                auto cmp = [&](int64_t a, int64_t b) { switch (cmpk) { case 0: return b < a; case 1: return a % 3 < b % 3; case 2: return false; default: return a / 2 < b / 2; } };
                withcol(col, [&](auto I) { x.template sort_by_field<I()>([&](const auto& a, const auto& b) { if (fault_event(F_CALL)) throw Injected{ F_CALL }; return cmp(rd(a), rd(b)); }); });
                Ignore g; std::stable_sort(t.begin(), t.end(), [&](const Row& a, const Row& b) { return cmp(a[col], b[col]); });
                break;
            }
            case O_WRITE: if (n) { size_t r = (size_t)op.a % n; withcol(col, [&](auto I) { std::get<I()>(x[r]) = mkv<Col<I()>>(w[I()]); }); Ignore g; t[r][col] = w[col]; } break;
            case O_VIEW: if (n) { size_t r = (size_t)op.a % n; withcol(col, [&](auto I) { std::get<0>(x.template view<I()>(r)) = mkv<Col<I()>>(w[I()]); }); Ignore g; t[r][col] = w[col]; } break;
            case O_COL: if (n) { size_t r = (size_t)op.a % n; withcol(col, [&](auto I) { x.template get_column<I()>()[r] = mkv<Col<I()>>(w[I()]); }); Ignore g; t[r][col] = w[col]; } break;
            case O_COPY: fresh = sim_new<S>(std::as_const(y)); { Ignore g; t = s.m[j]; } break;
            case O_COPYA: x = std::as_const(y); { Ignore g; t = s.m[j]; } break;
            case O_MOVE: if (i != j) { fresh = sim_new<S>(std::move(y)); Ignore g; t = s.m[j]; touch_j = true; tj.clear(); } break;
            case O_MOVEA: if (i != j) { x = std::move(y); y.clear(); Ignore g; t = s.m[j]; touch_j = true; tj.clear(); } break;
            case O_SWAP: { using std::swap; swap(x, y); Ignore g; t = s.m[j]; if (i != j) { touch_j = true; tj = s.m[i]; } break; }
            case O_PRINT: if constexpr (!(std::is_same_v<Ts, Obj> || ...)) { if (s.mt) break; Ignore g; std::ostringstream os; os << x; out = os.str(); std::string e = "soa {\n";
                for (auto& r : t) { std::ostringstream l; l << "\t"; for (size_t q = 0; q < N; ++q) withcol(q, [&](auto I) { l << (q ? ", " : "") << mkv<Col<I()>>(r[q]); }); e += l.str() + "\n"; }
                e += "}\n"; if (e != out) fail("model", "printed form is wrong"); } break;
            }
        } catch (const std::bad_alloc&) { threw = true; if (!fault_fired()) fail("exception", "%s threw bad_alloc without a fault", sname(0, op.code));
        } catch (const Injected&) { threw = true; }
        if (threw && (op.code == O_CLEAR || op.code == O_MOVE || op.code == O_MOVEA || op.code == O_SWAP)) fail("exception", "%s threw", sname(0, op.code));
        disarm();
        if (!threw || op.code == O_INS || op.code == O_INS2) { s.m[i] = t; if (touch_j) s.m[j] = tj; }
        if (fresh) { Active a; sim_delete(s.c[i]); s.c[i] = fresh; if (op.code == O_MOVE) s.c[j]->clear(); }
        observe(s, i, sname(0, op.code));
        if (j != i) observe(s, j, sname(0, op.code));
        trace_op(tid, op.code, (int64_t)s.m[i].size() * 2 + threw);
    }
    static void run(const Case& c) {
        static State* st = new State[9];
        int n = (int)c.threads.size();
        bool mt = n > 1;
        for (int t = mt ? 1 : 0; t <= (mt ? n : 0); ++t) { st[t].mt = mt; for (auto& m : st[t].m) { m.clear(); m.shrink_to_fit(); } st[t].nid = 1000 * t + 1; Active a; for (auto& p : st[t].c) p = sim_new<S>(); }
        if (!mt) { for (auto& o : c.threads[0]) step(st[0], 0, o); }
        else run_threads(n, [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) step(st[tid], tid, o); });
        for (int t = mt ? 1 : 0; t <= (mt ? n : 0); ++t) { Active a; for (auto& p : st[t].c) { sim_delete(p); p = nullptr; } }
    }
};
void gen(Rng& r, Case& c, bool mt) {
    int n = mt ? (int)r.range(2, 3) : 1;
    c.threads.resize((size_t)n);
    int fpct = r.chance(1, 3) ? 0 : mt ? 10 : 25;
    for (auto& t : c.threads) {
        int m = mt ? (int)r.range(2, 7) : (int)r.range(4, 40);
        bool big = r.chance(1, 4);
        for (int q = 0; q < m; ++q) {
            Op o; uint64_t x = r.below(100);
            o.code = x < 15 ? O_INS : x < 35 ? O_INS2 : x < 60 ? (r.chance(1, 2) ? O_SORT : O_SORTC) : (int)r.below(O_N);
            if (q == 0) o.code = O_INS2;
            o.a = (int64_t)r.below(1000); if (!big) o.a &= ~64ll;
            o.b = (int64_t)r.below(256); if (r.chance(1, 2)) o.b &= ~15ll;
            o.c = (int64_t)r.below(1u << 20);
            if ((int)r.below(100) < fpct) { o.fk = o.code == O_SORTC && r.chance(1, 2) ? F_CALL : r.chance(1, 2) ? F_ALLOC : F_CTOR; o.fn = (int)r.range(1, r.chance(1, 2) ? 4 : 20); }
            t.push_back(o);
        }
    }
}
void gen_st(Rng& r, Case& c) { gen(r, c, false); }
void gen_mt(Rng& r, Case& c) { gen(r, c, true); }
Harness h1{ "soa_a", gen_st, Soa<Obj, int64_t, Obj>::run, sname, nullptr };
Harness h2{ "soa_b", gen_st, Soa<int64_t, std::string, int>::run, sname, nullptr };
Harness h3{ "soa_c", gen_st, Soa<Obj, Obj>::run, sname, nullptr };
Harness h4{ "soa_mt", gen_mt, Soa<int64_t, Obj, int>::run, sname, nullptr };
Reg r1(&h1), r2(&h2), r3(&h3), r4(&h4);
}
