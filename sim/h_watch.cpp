// gtl stopwatches under a simulated clock: time advances by arbitrary amounts between and
// during calls, the system clock is stepped back and forth, scopes end by exceptions.
#include "elem.h"
#include <string>
#include "gtl/stopwatch.hpp"
#include <cmath>
#include <sstream>
using namespace sim;

namespace {
enum { W_ADV, W_START, W_SNAP, W_SINCE, W_SINCE_SNAP, W_S2S, W_SCOPE, W_SCOPE_THROW, W_NEW, W_COPY, B_NEW, B_START, B_GET, B_DEL, W_N };
const char* wname(int, int c) {
    static const char* n[] = { "time passes", "start", "snap", "since_start", "since_snap", "start_to_snap", "start_snap scope", "start_snap scope left by exception", "new stopwatch", "copy stopwatch", "new basic_stopwatch", "basic start", "get_time_us", "delete basic_stopwatch" };
    return c >= 0 && c < W_N ? n[c] : "?";
}
struct Iv { int64_t lo = 0, hi = 0; };     // a moment known to lie in [lo, hi] ns
// an elapsed time reported for the interval between two moments
void elapsed(double got, double ns_per_unit, Iv a, Iv b, double rel, const char* what) {
    double lo = (double)(b.lo - a.hi) / ns_per_unit, hi = (double)(b.hi - a.lo) / ns_per_unit;
    if (lo < 0) lo = 0;
    double tol = rel * (hi + 1) ;
    tol = rel * hi + 1e-12;
    if (!(got >= lo - tol && got <= hi + tol)) fail("elapsed", "%s reported %.9g, should be between %.9g and %.9g", what, got, lo, hi);
}
template<class U> struct Watch {
    using SW = gtl::stopwatch<U>;
    static void run(const Case& c) {
        const double npu = (double)U::num / (double)U::den * 1e9;
        constexpr int NW = 2;
        SW* w[NW]; Iv st[NW], sn[NW]; bool on[NW];
        gtl::basic_stopwatch* b = nullptr; Iv bs; std::string msg;
        g_clock_on = true; g_clock_ns = 1000000000ll * c.params[0]; g_wall_ns = 1000000000ll * c.params[1]; g_clock_tick = c.params[2]; g_clock_jump = 0;
        std::ostringstream* os = new std::ostringstream();
        auto* oldbuf = std::cout.rdbuf(os->rdbuf());
        int64_t begin_ns = g_clock_ns;
        auto rd = [&](auto f) { Iv r; r.lo = g_clock_ns; { Active a; f(); } r.hi = g_clock_ns; return r; };
        for (int i = 0; i < NW; ++i) { st[i] = sn[i] = rd([&] { w[i] = sim_new<SW>(); }); on[i] = true; }
        for (auto& op : c.threads[0]) {
            int i = (int)(op.b % NW), j = (int)((op.b >> 2) % NW);
            g_clock_jump = op.c * 1000000ll;
            double got = 0; Iv n;
            int64_t h = 0;
            arm(op);
            switch (op.code) {
            case W_ADV: g_clock_ns += op.a; break;
            case W_START: st[i] = sn[i] = rd([&] { w[i]->start(); }); on[i] = true; break;
            case W_SNAP: sn[i] = rd([&] { w[i]->snap(); }); break;
            case W_SINCE: if (on[i]) { n = rd([&] { got = w[i]->since_start(); }); elapsed(got, npu, st[i], n, 1e-6, "since_start()"); } break;
            case W_SINCE_SNAP: if (on[i]) { n = rd([&] { got = w[i]->since_snap(); }); elapsed(got, npu, sn[i], n, 1e-6, "since_snap()"); } break;
            case W_S2S: if (on[i]) { rd([&] { got = w[i]->start_to_snap(); }); elapsed(got, npu, st[i], sn[i], 1e-6, "start_to_snap()"); } break;
            case W_SCOPE: case W_SCOPE_THROW: {
                Iv e; e.lo = 0;
                try {
                    Active a;
                    Iv s0; s0.lo = g_clock_ns;
                    gtl::start_snap<SW> g(*w[i]);
                    Ignore z; s0.hi = g_clock_ns; st[i] = s0; on[i] = true;
                    g_clock_ns += op.a; e.lo = g_clock_ns;
                    if (op.code == W_SCOPE_THROW) throw Injected{ F_CALL };
                } catch (const Injected&) {}
                e.hi = g_clock_ns; sn[i] = e;
                break;
            }
            case W_NEW: { bool start = op.a % 4 != 0; SW* f = nullptr; Iv s = rd([&] { f = start ? sim_new<SW>() : sim_new<SW>(false); }); { Active a; sim_delete(w[i]); } w[i] = f; st[i] = sn[i] = s; on[i] = start; break; }
            case W_COPY: if (i != j) { Active a; *w[i] = *w[j]; st[i] = st[j]; sn[i] = sn[j]; on[i] = on[j]; } break;
            case B_NEW: if (!b) { msg = op.a % 3 ? "took " : ""; std::string m2 = msg; bs = rd([&] { b = sim_new<gtl::basic_stopwatch>(std::move(m2)); }); } break;
            case B_START: if (b) bs = rd([&] { b->start(); }); break;
            case B_GET: if (b) { n = rd([&] { got = b->get_time_us(); }); elapsed(got, 1e3, bs, n, 1e-9, "get_time_us()"); } break;
            case B_DEL: if (b) {
                os->str("");
                n = rd([&] { sim_delete(b); }); b = nullptr;
                std::string s = os->str();
                if (msg.empty()) { if (!s.empty()) fail("elapsed", "a basic_stopwatch without message printed '%s'", s.c_str()); break; }
                if (s.compare(0, msg.size(), msg) || s.size() < 3 || s.substr(s.size() - 2) != "s\n") fail("elapsed", "a basic_stopwatch printed '%s'", s.c_str());
                elapsed(atof(s.c_str() + msg.size()), 1e9, bs, n, 2e-5, "the destructor of basic_stopwatch");   // printed with 6 digits
                break;
            }
            }
            disarm();
            memcpy(&h, &got, sizeof h);
            trace_op(0, op.code, h);
        }
        if (b) { Active a; sim_delete(b); }
        { Active a; for (auto p : w) sim_delete(p); }
        std::cout.rdbuf(oldbuf);
        delete os;
        set_sim_time((double)(g_clock_ns - begin_ns) / 1e9);
    }
};
void wgen(Rng& r, Case& c) {
    c.params = { r.chance(1, 2) ? (int64_t)r.below(100) : (int64_t)r.below(10000000), r.chance(1, 2) ? 1700000000 : (int64_t)r.below(2000000000), r.chance(1, 2) ? (int64_t)r.below(100) : (int64_t)r.below(3) * 100000 };
    c.threads.resize(1);
    int m = (int)r.range(3, 40); int fpct = r.chance(1, 4) ? 0 : 40;
    for (int q = 0; q < m; ++q) {
        Op o; o.code = r.chance(1, 3) ? W_ADV : (int)r.below(W_N);
        switch (r.below(5)) { case 0: o.a = (int64_t)r.below(1000); break; case 1: o.a = (int64_t)r.below(1000000); break; case 2: o.a = (int64_t)r.below(2000000000); break; case 3: o.a = (int64_t)r.below(100000000000ll); break; default: o.a = (int64_t)r.below(90000000000000ll); }
        o.b = (int64_t)r.below(16);
        if (o.code != W_ADV && (int)r.below(100) < fpct) { o.fk = F_CLOCK; o.fn = r.chance(1, 5) ? 2 : 1; o.c = (r.chance(1, 2) ? 1 : -1) * (int64_t)r.below(r.chance(1, 2) ? 100 : 7200000); }
        c.threads[0].push_back(o);
    }
}
Harness h1{ "watch_milli", wgen, Watch<std::milli>::run, wname, nullptr };
Harness h2{ "watch_micro", wgen, Watch<std::micro>::run, wname, nullptr };
Harness h3{ "watch_sec", wgen, Watch<std::ratio<1>>::run, wname, nullptr };
Harness h4{ "watch_min", wgen, Watch<std::ratio<60>>::run, wname, nullptr };
Reg r1(&h1), r2(&h2), r3(&h3), r4(&h4);
}
