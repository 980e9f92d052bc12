// Harness for gtl::bit_vector and its views: histories over three bit vectors with failing
// allocations, refined against plain arrays of bits.
#include "elem.h"
#include "gtl/bit_vector.hpp"
#include <algorithm>
#include <memory>
#include <sstream>
#include <string>
using namespace sim;

namespace {
enum BvOp : int {
    VB_SET, VB_RESET, VB_FLIP, VB_SETV, VB_SET_ALL, VB_RESET_ALL, VB_FLIP_ALL, VB_RESIZE, VB_BIN, VB_BIN_ASSIGN, VB_NOT, VB_SHL, VB_SHR, VB_SHL_ASSIGN, VB_SHR_ASSIGN, VB_ASSIGN_IL,
    VB_QUERY, VB_CMP, VB_VIEW_SET, VB_VIEW_RESET, VB_VIEW_FLIP, VB_VIEW_BIT, VB_VIEW_BIN, VB_VIEW_SHL, VB_VIEW_SHR, VB_VIEW_U64, VB_VIEW_IL, VB_VIEW_COPY, VB_VIEW_QUERY, VB_VIEW_CMP, VB_STRING,
    VB_COPY, VB_COPY_ASSIGN, VB_MOVE, VB_MOVE_ASSIGN, VB_SWAP, VB_CTOR, VB_CTOR_IL, VB_RANDOM, VB_SPARSE, VB_COUNT_
};
const char* bv_opname(int, int c) {
    static const char* n[] = { "set(i)", "reset(i)", "flip(i)", "set(i,v)", "set()", "reset()", "flip()", "resize", "binary operator", "compound assignment", "operator~", "operator<<", "operator>>", "operator<<=", "operator>>=", "assign(init_list)",
        "queries", "comparison", "view.set()", "view.reset()", "view.flip()", "view bit access", "view compound assignment", "view<<=", "view>>=", "view=uint64", "view=init_list", "view=view", "view queries", "view comparison", "string conversion",
        "copy ctor", "copy assign", "move ctor", "move assign", "swap", "ctor(n,v)", "ctor(init_list)", "random fill", "sparse fill" };
    return c >= 0 && c < VB_COUNT_ ? n[c] : "?";
}
using BV = gtl::bit_vector;
using Model = std::vector<char>;
constexpr int NC = 3;
struct Bits {
    BV* c[NC]; Model m[NC]; const Op* cur = nullptr;
    const char* on() { return bv_opname(0, cur->code); }
    void observe(int i) {
        Active a;
        const BV& x = *c[i];
        size_t n = m[i].size(), ones = 0;
        if (x.size() != n) fail("model", "after %s: bit_vector %d has size() %zu, should be %zu", on(), i, x.size(), n);
        if (x.empty() != (n == 0)) fail("model", "empty() is wrong");
        for (size_t q = 0; q < n; ++q) { if (x[q] != (bool)m[i][q]) fail("model", "after %s: bit %zu of bit_vector %d (size %zu) is %d, should be %d", on(), q, i, n, (int)x[q], (int)m[i][q]); ones += m[i][q]; }
        if (x.count() != ones) fail("model", "after %s: count() of bit_vector %d is %zu, should be %zu (bits past the end?)", on(), i, x.count(), ones);
        if (x.any() != (ones != 0) || x.none() != (ones == 0) || x.every() != (ones == n)) fail("model", "after %s: any/none/every of bit_vector %d are wrong", on(), i);
        if (x.num_blocks() != (n + 63) / 64) fail("model", "num_blocks() is wrong");
    }
    static void bin(Model& a, size_t f, const Model& b, size_t g, size_t n, int k) {
        for (size_t q = 0; q < n; ++q) { char y = b[g + q]; char& x = a[f + q]; switch (k) { case 0: x = x | y; break; case 1: x = x & y; break; case 2: x = x ^ y; break; case 3: x = x & !y; break; default: x = x | !y; } }
    }
    static void shl(Model& a, size_t f, size_t l, size_t n) { for (size_t q = f; q < l; ++q) a[q] = q + n < l && n < l - f ? a[q + n] : 0; }
    static void shr(Model& a, size_t f, size_t l, size_t n) { for (size_t q = l; q-- > f;) a[q] = n < l - f && q >= f + n ? a[q - n] : 0; }
    static std::string str(const Model& a, size_t f, size_t l) {
        if (f == l) return "<empty>";
        std::string s; size_t nb = (l - f + 7) / 8;
        for (size_t b = nb; b-- > 0;) { unsigned v = 0; for (size_t q = 0; q < 8; ++q) if (f + b * 8 + q < l && a[f + b * 8 + q]) v |= 1u << q; s += "0123456789abcdef"[v >> 4]; s += "0123456789abcdef"[v & 15]; }
        return "0x" + s;
    }
    void find(const Model& a, size_t f, size_t l, size_t start, size_t got, const char* what) {
        size_t e = (size_t)-1;
        for (size_t q = f + start; q < l; ++q) if (a[q]) { e = q - f; break; }
        if (got != e) fail("model", "%s on bits [%zu,%zu) from %zu returned %zd, should be %zd", what, f, l, start, (ssize_t)got, (ssize_t)e);
    }
    void step(const Op& op) {
        cur = &op;
        int i = (int)(op.b & 0xff) % NC, j = (int)((op.b >> 8) & 0xff) % NC;
        uint64_t aux = (uint64_t)(op.b >> 16) & 0xffff;
        Rng r((uint64_t)op.c);
        BV& x = *c[i]; BV& y = *c[j];
        Model t = m[i]; Model& u = m[j];
        size_t n = t.size(), n2 = u.size();
        size_t idx = n ? (size_t)op.a % n : 0;
        auto seg = [&](size_t sz, size_t& f, size_t& l) {   // a range, often touching slot boundaries
            f = (size_t)r.below(sz + 1); l = f + (size_t)r.below(sz - f + 1);
            if (r.chance(1, 4)) f = f / 64 * 64;
            if (r.chance(1, 4)) l = std::max(f, l / 64 * 64);
            if (r.chance(1, 6)) l = sz;
        };
        size_t f, l; seg(n, f, l);
        size_t cnt = r.chance(1, 3) ? (size_t)r.below(l - f + 3) : r.chance(1, 2) ? 64 * (size_t)r.range(0, 3) : (size_t)r.below(70);
        uint64_t v1 = r.next(), v2 = r.chance(1, 3) ? ~0ull : r.next(), v3 = r.chance(1, 3) ? 0 : r.next();
        BV* fresh = nullptr; Model nm; bool threw = false, mf = false, noalloc = true;
        std::string out, out2;
        arm(op);
        try {
            Active act;
            switch (op.code) {
            case VB_SET: if (n) { x.set(idx); Ignore g; t[idx] = 1; } break;
            case VB_RESET: if (n) { x.reset(idx); Ignore g; t[idx] = 0; } break;
            case VB_FLIP: if (n) { x.flip(idx); Ignore g; t[idx] ^= 1; } break;
            case VB_SETV: if (n) { x.set(idx, aux & 1); if (x.test(idx) != (bool)(aux & 1)) fail("model", "test() after set() is wrong"); Ignore g; t[idx] = aux & 1; } break;
            case VB_SET_ALL: x.set(); { Ignore g; std::fill(t.begin(), t.end(), 1); } break;
            case VB_RESET_ALL: x.reset(); { Ignore g; std::fill(t.begin(), t.end(), 0); } break;
            case VB_FLIP_ALL: x.flip(); { Ignore g; for (char& q : t) q ^= 1; } break;
            case VB_RESIZE: { size_t k = (size_t)op.a % 300; bool v = aux & 1; noalloc = k <= n; x.resize(k, v); Ignore g; t.resize(k, v); break; }
            case VB_BIN: if (n == n2) {
                noalloc = false; int k = (int)(aux % 4);
                BV z = k == 0 ? x | y : k == 1 ? x & y : k == 2 ? x ^ y : x - y;
                fresh = sim_new<BV>(std::move(z)); Ignore g; nm = t; bin(nm, 0, Model(u), 0, n, k); } break;
            case VB_BIN_ASSIGN: if (n == n2) { int k = (int)(aux % 5); if (k == 0) x |= y; else if (k == 1) x &= y; else if (k == 2) x ^= y; else if (k == 3) x -= y; else x.or_not(y); Ignore g; Model o = u; bin(t, 0, o, 0, n, k); } break;
            case VB_NOT: noalloc = false; fresh = sim_new<BV>(~x); { Ignore g; nm = t; for (char& q : nm) q ^= 1; } break;
            case VB_SHL: noalloc = false; fresh = sim_new<BV>(x << cnt); { Ignore g; nm = t; shl(nm, 0, n, cnt); } break;
            case VB_SHR: noalloc = false; fresh = sim_new<BV>(x >> cnt); { Ignore g; nm = t; shr(nm, 0, n, cnt); } break;
            case VB_SHL_ASSIGN: x <<= cnt; { Ignore g; shl(t, 0, n, cnt); } break;
            case VB_SHR_ASSIGN: x >>= cnt; { Ignore g; shr(t, 0, n, cnt); } break;
            case VB_ASSIGN_IL: if (n >= 128) { x = { v1, v2 }; Ignore g; for (size_t q = 0; q < 64; ++q) { t[q] = v1 >> q & 1; t[64 + q] = v2 >> q & 1; } } break;
            case VB_QUERY:
                find(t, 0, n, 0, x.find_first(), "find_first");
                find(t, 0, n, idx, x.find_next(idx), "find_next");
                if (x.to_ullong() != [&] { uint64_t e = 0; for (size_t q = 0; q < n && q < 64; ++q) e |= (uint64_t)t[q] << q; return e; }()) fail("model", "to_ullong is wrong");
                { size_t p = x.find_first(), seen = 0, e = 0; for (char q : t) e += q; while (p != BV::npos && seen <= n) { ++seen; p = x.find_next(p + 1); } if (seen != e) fail("model", "iterating with find_next visits %zu bits of %zu", seen, e); }
                break;
            case VB_CMP: {
                if ((x == y) != (t == u) || (x != y) == (t == u)) fail("model", "operator== of bit_vectors %d and %d is wrong", i, j);
                if (t == u && std::hash<BV>()(x) != std::hash<BV>()(y)) fail("model", "equal bit_vectors %d and %d hash differently", i, j);
                bool ct = true, dj = true; for (size_t q = 0; q < std::min(n, n2); ++q) { if (u[q] && !t[q]) ct = false; if (u[q] && t[q]) dj = false; }
                if (n >= n2 && x.contains(y) != ct) fail("model", "contains of bit_vectors of %zu and %zu bits returned %d", n, n2, !ct);
                if (x.disjoint(y) != dj || x.intersects(y) == dj) fail("model", "disjoint of bit_vectors of %zu and %zu bits returned %d", n, n2, !dj);
                break; }
            case VB_VIEW_SET: x.view(f, l).set(); { Ignore g; std::fill(t.begin() + (long)f, t.begin() + (long)l, 1); } break;
            case VB_VIEW_RESET: x.view(f, l).reset(); { Ignore g; std::fill(t.begin() + (long)f, t.begin() + (long)l, 0); } break;
            case VB_VIEW_FLIP: x.view(f, l).flip(); { Ignore g; for (size_t q = f; q < l; ++q) t[q] ^= 1; } break;
            case VB_VIEW_BIT: if (l > f) { size_t k = (size_t)op.a % (l - f); auto vw = x.view(f, l); if (aux % 4 == 0) vw.set(k); else if (aux % 4 == 1) vw.reset(k); else if (aux % 4 == 2) vw.flip(k); else vw.set(k, aux & 8); Ignore g; char& q = t[f + k]; q = aux % 4 == 0 ? 1 : aux % 4 == 1 ? 0 : aux % 4 == 2 ? !q : (aux & 8) != 0; if (vw[k] != (bool)q) fail("model", "view[%zu] is wrong", k); } break;
            case VB_VIEW_BIN: {   // same size; another vector, or any range of the same one
                size_t sz = std::min(l - f, n2); size_t g0 = (size_t)r.below(n2 - sz + 1); int k = (int)(aux % 5);
                if (i == j && g0 < f && f < g0 + sz) noalloc = false;   // overlapping from below: needs a copy
                auto a = x.view(f, f + sz); auto b = y.view(g0, g0 + sz);
                if (k == 0) a |= b; else if (k == 1) a &= b; else if (k == 2) a ^= b; else if (k == 3) a -= b; else a.or_not(b);
                Ignore g; Model o = u; bin(t, f, o, g0, sz, k); break; }
            case VB_VIEW_SHL: x.view(f, l) <<= cnt; { Ignore g; shl(t, f, l, cnt); } break;
            case VB_VIEW_SHR: x.view(f, l) >>= cnt; { Ignore g; shr(t, f, l, cnt); } break;
            case VB_VIEW_U64: { size_t e = std::min(l, f + 64); x.view(f, e) = v1; Ignore g; for (size_t q = f; q < e; ++q) t[q] = v1 >> (q - f) & 1; break; }
            case VB_VIEW_IL: { x.view(f, l) = { v1, v2, v3 }; Ignore g; for (size_t q = f; q < l && q < f + 192; ++q) { uint64_t v = q - f < 64 ? v1 : q - f < 128 ? v2 : v3; t[q] = v >> ((q - f) & 63) & 1; } break; }
            case VB_VIEW_COPY: { noalloc = false; size_t sz = std::min(l - f, n2); size_t g0 = (size_t)r.below(n2 - sz + 1); x.view(f, f + sz) = y.view(g0, g0 + sz); Ignore g; Model o(u.begin() + (long)g0, u.begin() + (long)(g0 + sz)); std::copy(o.begin(), o.end(), t.begin() + (long)f); break; }
            case VB_VIEW_QUERY: {
                auto vw = std::as_const(x).view(f, l);
                size_t e = 0; for (size_t q = f; q < l; ++q) e += t[q];
                if (vw.size() != l - f || vw.empty() != (l == f)) fail("model", "view size is wrong");
                if (vw.count() != e) fail("model", "count() of bits [%zu,%zu) is %zu, should be %zu", f, l, vw.count(), e);
                if (vw.any() != (e != 0) || vw.none() != (e == 0) || vw.every() != (e == l - f)) fail("model", "any/none/every of bits [%zu,%zu) is wrong", f, l);
                find(t, f, l, 0, vw.find_first(), "view.find_first");
                if (l > f) { size_t s = (size_t)r.below(l - f); find(t, f, l, s, vw.find_next(s), "view.find_next"); }
                break; }
            case VB_VIEW_CMP: {
                size_t f2, l2; { Ignore g; seg(n2, f2, l2); if (aux & 1) { size_t sz = std::min(l - f, n2); f2 = std::min(f2, n2 - sz); l2 = f2 + sz; l = f + sz; } }
                auto a = x.view(f, l); auto b = y.view(f2, l2);
                bool eq = l - f == l2 - f2, ct = true, dj = true;
                for (size_t q = 0; q < std::min(l - f, l2 - f2); ++q) { bool p = t[f + q], s = u[f2 + q]; if (p != s) eq = false; if (s && !p) ct = false; if (s && p) dj = false; }
                if ((a == b) != eq) fail("model", "operator== of views [%zu,%zu) and [%zu,%zu) returned %d", f, l, f2, l2, !eq);
                if (l - f >= l2 - f2 && a.contains(b) != ct) fail("model", "contains of views [%zu,%zu) and [%zu,%zu) returned %d", f, l, f2, l2, !ct);
                if (a.disjoint(b) != dj || a.intersect(b) == dj) fail("model", "disjoint of views [%zu,%zu) and [%zu,%zu) returned %d", f, l, f2, l2, !dj);
                break; }
            case VB_STRING: noalloc = false; if (aux & 1) out = (std::string)x.view(f, l); else out = (std::string)x; out2 = x.to_string(); break;
            case VB_COPY: noalloc = false; fresh = sim_new<BV>(std::as_const(x)); { Ignore g; nm = t; } break;
            case VB_COPY_ASSIGN: noalloc = false; x = std::as_const(y); { Ignore g; t = u; } break;
            case VB_MOVE: fresh = sim_new<BV>(std::move(x)); { Ignore g; nm = t; mf = true; } break;
            case VB_MOVE_ASSIGN: if (i != j) { y = std::move(x); Ignore g; u = t; mf = true; } break;
            case VB_SWAP: if (i != j) { x.swap(y); Ignore g; Model o = t; t = u; u = o; } break;
            case VB_CTOR: { noalloc = false; size_t k = (size_t)op.a % 260; fresh = sim_new<BV>(k, aux & 1); Ignore g; nm.assign(k, aux & 1); break; }
            case VB_CTOR_IL: { noalloc = false; fresh = sim_new<BV>(std::initializer_list<uint64_t>{ v1, v2 }); Ignore g; nm.resize(128); for (size_t q = 0; q < 64; ++q) { nm[q] = v1 >> q & 1; nm[64 + q] = v2 >> q & 1; } break; }
            case VB_RANDOM: for (size_t q = 0; q < n; ++q) { bool b; { Ignore g; b = r.chance(1, 2); t[q] = b; } x.set(q, b); } break;
            case VB_SPARSE: x.reset(); { Ignore g; std::fill(t.begin(), t.end(), 0); } if (n) for (int q = 0; q < 3; ++q) { size_t p; { Ignore g; p = (size_t)r.below(n); t[p] = 1; } x.set(p); } break;
            }
        } catch (const std::bad_alloc&) { if (!fault_fired()) fail("exception", "%s threw bad_alloc without an injected failure", on()); threw = true; }
        disarm();
        if (threw) { count("failed_ops"); if (noalloc) fail("failed-op", "%s failed although it needs no memory", on()); out.clear(); out2.clear(); }
        else {
            m[i] = t;
            if (op.code == VB_STRING) {
                std::string e = (aux & 1) ? str(t, f, l) : str(t, 0, n);
                if (out != e) fail("model", "string conversion of bits [%zu,%zu) gives %s, should be %s", f, l, out.c_str(), e.c_str());
                std::string e2; for (size_t q = n; q-- > 0;) e2 += t[q] ? '1' : '0';
                if (out2 != e2) fail("model", "to_string() gives %s, should be %s", out2.c_str(), e2.c_str());
            }
            if (mf) {   // moved-from: any consistent state
                { Active a; size_t k = x.size(), e = 0; for (size_t q = 0; q < k; ++q) e += x[q]; if (x.count() != e) fail("model", "a moved-from bit_vector is inconsistent"); x.resize(0); }
                m[i].clear();
            }
        }
        if (fresh) { { Active a; sim_delete(c[j]); } c[j] = fresh; m[j] = nm; }
        { std::string().swap(out); std::string().swap(out2); }
        trace_op(1, op.code, (int64_t)m[i].size() * 7 + threw);
        for (int q = 0; q < NC; ++q) observe(q);
    }
    void run(const Case& cs) {
        for (int i = 0; i < NC; ++i) { m[i].assign((size_t)cs.params[i], 0); Active a; c[i] = sim_new<BV>((size_t)cs.params[i]); }
        for (auto& o : cs.threads[0]) step(o);
        for (int i = 0; i < NC; ++i) { Active a; sim_delete(c[i]); }
        for (int i = 0; i < NC; ++i) m[i].clear();
    }
};
void bits_run(const Case& c) { static Bits* p = new Bits(); p->run(c); }
void bits_gen(Rng& r, Case& c) {
    int64_t z = r.range(0, 300);
    c.params = { z, r.chance(2, 3) ? z : r.range(0, 300), r.chance(1, 2) ? z : r.range(0, 200) };
    c.threads.resize(1);
    int n = r.chance(1, 3) ? (int)r.range(16, 40) : (int)r.range(2, 12);
    std::vector<int> pool;
    if (r.chance(1, 2)) { int np = (int)r.range(2, 6); for (int i = 0; i < np; ++i) pool.push_back((int)r.below(VB_COUNT_)); pool.push_back(VB_RANDOM); }
    int nc = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Op o;
        o.code = i == 0 && r.chance(2, 3) ? (int)VB_RANDOM : pool.empty() || r.chance(1, 4) ? (int)r.below(VB_COUNT_) : pool[r.below(pool.size())];
        o.a = (int64_t)r.below(4096);
        o.b = (int64_t)r.below((uint64_t)nc) | ((int64_t)r.below((uint64_t)nc) << 8) | ((int64_t)r.below(65536) << 16);
        o.c = (int64_t)(r.next() >> 2);
        if (r.chance(20, 100)) { o.fk = F_ALLOC; o.fn = (int)r.range(1, 2); }
        c.threads[0].push_back(o);
    }
}
Harness h{ "bits", bits_gen, bits_run, bv_opname, nullptr };
Reg reg(&h);
}
