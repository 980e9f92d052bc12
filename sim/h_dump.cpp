// dump / load of flat and parallel flat containers, to user archives and to files, with
// failing, short, interrupted and torn I/O, crashes in the middle of a dump, truncated files,
// failing allocations, and (dumpmt) while other threads use the container.
#include "elem.h"
#include "submap.h"
#include "lincheck.h"
#include "io.h"
#include "gtl/phmap_dump.hpp"
#include <fcntl.h>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sys/mman.h>
#include <unistd.h>

namespace {
using namespace sim;
using Bytes = std::vector<char>;

// archives a user would write
struct BoolOut {
    Bytes& b;
    bool saveBinary(const void* p, size_t n) {
        Ignore g;
        if (fault_event(F_IO)) return false;
        if (fault_event(F_SHORT)) { b.insert(b.end(), (const char*)p, (const char*)p + n / 2); return false; }
        check_range(p, n, false);
        b.insert(b.end(), (const char*)p, (const char*)p + n);
        return true;
    }
};
struct VoidOut {
    Bytes& b;
    void saveBinary(const void* p, size_t n) {
        Ignore g;
        if (fault_event(F_IO)) throw Injected{ F_IO };
        check_range(p, n, false);
        b.insert(b.end(), (const char*)p, (const char*)p + n);
    }
};
struct BoolIn {
    const Bytes& b; size_t pos = 0;
    bool loadBinary(void* p, size_t n) {
        Ignore g;
        if (fault_event(F_IO)) return false;
        size_t k = b.size() - pos < n ? b.size() - pos : n;
        bool   cut = fault_event(F_SHORT);
        if (cut) k /= 2;
        check_range(p, k, true);
        if (k) memcpy(p, b.data() + pos, k);
        pos += k;
        return k == n && !cut;
    }
};
struct VoidIn {
    const Bytes& b; size_t pos = 0;
    void loadBinary(void* p, size_t n) {
        Ignore g;
        if (fault_event(F_IO) || b.size() - pos < n) throw Injected{ F_IO };
        check_range(p, n, true);
        memcpy(p, b.data() + pos, n);
        pos += n;
    }
};

int g_fd = -1;
std::string g_path;
void file_open() {
    if (g_fd < 0) { g_fd = memfd_create("simfile", 0); char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", g_fd); g_path = b; }
    if (g_fd < 0) { fprintf(stderr, "memfd_create failed\n"); _Exit(2); }
}
Bytes file_get() { Bytes b; off_t n = lseek(g_fd, 0, SEEK_END); b.resize((size_t)n); if (n && pread(g_fd, b.data(), (size_t)n, 0) != n) _Exit(2); return b; }
void file_set(const Bytes& b) { if (ftruncate(g_fd, 0)) _Exit(2); if (b.size() && pwrite(g_fd, b.data(), b.size(), 0) != (ssize_t)b.size()) _Exit(2); }

struct KHash { size_t operator()(int64_t k) const { return hash_i64(k); } };

enum { U_INS, U_INSN, U_ERASE, U_ERASEN, U_CLEAR, U_RESERVE, U_REHASH, U_DUMP, U_DUMPV, U_DUMPF, U_DUMPFS, U_DUMP2, U_LOAD, U_LOADV, U_LOADF, U_LOADFS, U_LOAD2, U_TRUNC, U_OLD, U_BADFILE, U_CROSS, U_N };
const char* uname_(int, int c) {
    static const char* n[] = { "insert", "insert many", "erase", "erase many", "clear", "reserve", "rehash", "dump(user archive)", "dump(throwing archive)", "dump(file)", "saveBinary(file)", "dump both", "load(user archive)",
        "load(throwing archive)", "load(file)", "loadBinary(file)", "load both", "truncate stored dump", "load old format", "missing file", "load of a dump with another submap count" };
    return c >= 0 && c < U_N ? n[c] : "?";
}

// the same parallel container with one submap bit less / more
template<class T> struct Resub { using Fewer = T; using More = T; };
template<class K, class V, class H, class E, class A, size_t N, class M> struct Resub<gtl::parallel_flat_hash_map<K, V, H, E, A, N, M>> { using Fewer = gtl::parallel_flat_hash_map<K, V, H, E, A, N - 1, M>; using More = gtl::parallel_flat_hash_map<K, V, H, E, A, N + 1, M>; };
template<class K, class H, class E, class A, size_t N, class M> struct Resub<gtl::parallel_flat_hash_set<K, H, E, A, N, M>> { using Fewer = gtl::parallel_flat_hash_set<K, H, E, A, N - 1, M>; using More = gtl::parallel_flat_hash_set<K, H, E, A, N + 1, M>; };
template<class T> using Fewer = typename Resub<T>::Fewer;
template<class T> using More = typename Resub<T>::More;

template<class T, bool MAP, bool PAR, bool ST> struct Dump {
    T* C[2] = {};
    int seed = 0;
    // with stateful functors both containers use the same hash, but each has its own allocator
    T* mk(int i) {
        if constexpr (ST) return sim_new<T>(size_t(0), SHash<int64_t>{ seed }, SEq<int64_t>{ seed }, typename T::allocator_type(1 + i)); else return sim_new<T>();
    }
    std::map<int64_t, int64_t> M[2];
    Bytes stored; std::map<int64_t, int64_t> sm, sm2; bool complete = false, two = false; size_t full_len = 0;
    int64_t K = 0;

    void put(int i, int64_t k, int64_t v) { if constexpr (MAP) C[i]->insert_or_assign(k, v); else { C[i]->insert(k); v = 1; } }
    void cmp(int i, const char* after) {
        std::map<int64_t, int64_t> got; size_t n = 0, sz;
        {
            Active a;
            sz = C[i]->size();
            for (auto it = C[i]->begin(); it != C[i]->end(); ++it) {
                int64_t k, v = 1; if constexpr (MAP) { k = it->first; v = it->second; } else k = *it;
                Ignore g; got[k] = v; if (++n > sz + 64) fail("model", "after %s iteration does not end", after);
            }
        }
        if (n != sz || got.size() != n || got != M[i]) fail("model", "after %s container %c holds %zu elements (size() %zu), expected %zu%s", after, 'A' + i, n, sz, M[i].size(), got.size() == M[i].size() ? " with other contents" : "");
        if constexpr (ST) {
            if (C[i]->hash_function().seed != seed || C[i]->key_eq().seed != seed) fail("functor", "after %s container %c uses another hash or equality function than the one it was created with", after, 'A' + i);
            if (C[i]->get_allocator().id != 1 + i) fail("allocator", "after %s container %c uses the allocator of another container", after, 'A' + i);
        }
        for (int64_t k = 0; k < K; ++k) { bool f; { Active a; f = C[i]->contains(k); } if (f != (M[i].count(k) != 0)) fail("model", "after %s contains(%lld) is %d", after, (long long)k, f); }
    }
    // result of a load into container i: threw / false / true
    void loaded(int i, bool ok, bool threw, bool expect_ok, const std::map<int64_t, int64_t>& want, const char* what) {
        if (ok && !threw) {
            if (!expect_ok) fail("truncated", "%s returned true although the data was incomplete or reading it failed", what);
            M[i] = want;
        } else {
            if (expect_ok && !fault_fired()) fail("roundtrip", "%s failed although a complete dump was available and no fault was injected", what);
            size_t sz; { Active a; sz = C[i]->size(); }
            if (sz == 0) M[i].clear();     // otherwise it must be unchanged, which cmp() checks
        }
    }
    template<class F> bool guarded(const Op& op, bool& threw, F&& f) {
        bool ok = false; threw = false;
        arm(op);
        try { Active a; ok = f(); }
        catch (const Injected&) { threw = true; } catch (const std::bad_alloc&) { threw = true; }
        if (threw && !fault_fired() && !(op.code == U_LOADV && !complete)) fail("exception", "%s threw without a fault", uname_(0, op.code));
        return ok;
    }
    void step(const Op& op) {
        int i = (int)(op.b & 1), j = 1 - i;
        bool threw = false, ok;
        int64_t tr = 0;
        bool iofault = op.fk == F_IO || op.fk == F_SHORT;
        switch (op.code) {
        case U_INS: guarded(op, threw, [&] { put(i, op.a, op.c); return true; }); if (!threw) M[i][op.a] = MAP ? op.c : 1; break;
        case U_INSN: for (int64_t q = 0; q < 20; ++q) { int64_t k = (op.a + q * 3) % K; { Active a; put(i, k, op.c + q); } M[i][k] = MAP ? op.c + q : 1; } break;
        case U_ERASE: { size_t e; { Active a; e = C[i]->erase(op.a); } if (e != M[i].erase(op.a)) fail("model", "erase returned %zu", e); break; }
        case U_ERASEN: for (int64_t q = 0; q < 15; ++q) { int64_t k = (op.a + q * 2) % K; { Active a; C[i]->erase(k); } M[i].erase(k); } break;
        case U_CLEAR: { Active a; C[i]->clear(); } M[i].clear(); break;
        case U_RESERVE: guarded(op, threw, [&] { C[i]->reserve((size_t)op.c % 300); return true; }); break;
        case U_REHASH: guarded(op, threw, [&] { C[i]->rehash((size_t)op.c % 70); return true; }); break;
        case U_DUMP: case U_DUMPV: case U_DUMP2: {
            stored.clear();
            BoolOut o{ stored }; VoidOut v{ stored };
            two = op.code == U_DUMP2; complete = false;
            ok = guarded(op, threw, [&] { if (op.code == U_DUMPV) return std::as_const(*C[i]).phmap_dump(v); if (two) return C[i]->phmap_dump(o) && C[j]->phmap_dump(o); return C[i]->phmap_dump(o); });
            sm = M[i]; sm2 = M[j]; complete = ok && !threw; if (two && !complete) stored.clear();
            if (iofault && fault_fired() && complete) fail("dump-error", "dump returned true although the archive reported a failure");
            if (!fault_fired() && !complete) fail("dump-error", "dump failed although nothing went wrong");
            break;
        }
        case U_DUMPF: case U_DUMPFS: {
            two = false;
            file_set(op.c & 1 ? stored : Bytes{});          // an older dump may be in the way
            Bytes ref; { Active a; BoolOut o{ ref }; C[i]->phmap_dump(o); }
            bool opened_ok = true;
            std::unique_ptr<gtl::BinaryOutputArchive> ar(new gtl::BinaryOutputArchive(g_path.c_str()));
            g_io_on = true; g_io_crashed = false;
            ok = guarded(op, threw, [&] { return op.code == U_DUMPF ? C[i]->phmap_dump(*ar) : ar->saveBinary(*C[i]); });
            bool crash = g_io_crashed;
            bool fired = fault_fired();
            Bytes at_return = file_get();
            ar.reset();                       // closes the file; what is still buffered goes out now
            g_io_on = false;
            stored = file_get();
            sm = M[i];
            if (crash) {
                // the process died during the dump: only what reached the file survives
                { Active a; sim_delete(C[0]); sim_delete(C[1]); C[0] = mk(0); C[1] = mk(1); }
                M[0].clear(); M[1].clear();
                complete = stored.size() == ref.size();
            } else {
                complete = ok && !threw;
                if (op.fk == F_IO && fired && complete) fail("dump-error", "dump to a file returned true although writing failed");
                if (!(op.fk == F_IO && fired) && !complete && opened_ok) fail("dump-error", "dump to a file failed although no write failed");
                if (complete && at_return.size() != stored.size()) fail("dump-error", "dump returned true before all data was handed to the operating system");
                if (!complete) complete = stored.size() == ref.size();   // closing the file may have written the rest
            }
            break;
        }
        case U_LOAD: case U_LOADV: {
            BoolIn o{ stored }; VoidIn v{ stored };
            ok = guarded(op, threw, [&] { return op.code == U_LOAD ? C[i]->phmap_load(o) : C[i]->phmap_load(v); });
            loaded(i, ok, threw, complete && !(iofault && fault_fired()), sm, uname_(0, op.code));
            break;
        }
        case U_LOADF: case U_LOADFS: {
            file_set(stored);
            std::unique_ptr<gtl::BinaryInputArchive> ar(new gtl::BinaryInputArchive(g_path.c_str()));
            g_io_on = true; g_io_crashed = false;
            ok = guarded(op, threw, [&] { return op.code == U_LOADF ? C[i]->phmap_load(*ar) : ar->loadBinary(C[i]); });
            g_io_on = false;
            loaded(i, ok, threw, complete && !(op.fk == F_IO && fault_fired()), sm, uname_(0, op.code));
            break;
        }
        case U_LOAD2: {
            if (!two || !complete) break;
            BoolIn o{ stored };
            ok = guarded(op, threw, [&] { return C[i]->phmap_load(o); });
            loaded(i, ok, threw, !(iofault && fault_fired()), sm, "first load");
            if (ok && !threw) {
                cmp(i, "first load");
                Op n; n.code = op.code;
                ok = guarded(n, threw, [&] { return C[j]->phmap_load(o); });
                loaded(j, ok, threw, true, sm2, "second load");
                if (o.pos != stored.size()) fail("roundtrip", "load consumed %zu of %zu bytes", o.pos, stored.size());
            }
            break;
        }
        case U_TRUNC: {
            if (two || stored.empty()) break;
            size_t n = stored.size();
            size_t to = op.c % 3 == 0 ? n - 1 : op.c % 3 == 1 ? (size_t)(op.c / 3) % n : ((size_t)(op.c / 3) % 8) * 8 % n;
            stored.resize(to);
            complete = false;
            break;
        }
        case U_OLD:
            if constexpr (!PAR) {
                // files written before the version field: size, capacity, control bytes, slots
                if (!complete || two || sm.empty()) break;
                Bytes old(stored.begin() + 8, stored.begin() + 24);
                old.insert(old.end(), stored.begin() + 32, stored.end());
                BoolIn o{ old };
                ok = guarded(op, threw, [&] { return C[i]->phmap_load(o); });
                loaded(i, ok, threw, !(iofault && fault_fired()), sm, "load of the old format");
            }
            break;
        case U_CROSS:
            if constexpr (PAR && !ST) {
                // a dump made by a container with another number of submaps: refused, or loaded in full
                Bytes b; std::map<int64_t, int64_t> om;
                {
                    Active a;
                    auto fill = [&](auto* t) { for (int64_t q = 0; q < op.c % 30; ++q) { int64_t k = (op.a + q) % K; if constexpr (MAP) t->insert_or_assign(k, q); else t->insert(k); Ignore g; om[k] = MAP ? q : 1; } BoolOut o{ b }; t->phmap_dump(o); sim_delete(t); };
                    if (op.c & 1) fill(sim_new<Fewer<T>>()); else fill(sim_new<More<T>>());
                }
                BoolIn o{ b };
                Op n; n.code = op.code;
                ok = guarded(n, threw, [&] { return C[i]->phmap_load(o); });
                if (ok && !threw) M[i] = om;
                else { size_t sz; { Active a; sz = C[i]->size(); } if (sz == 0) M[i].clear(); }
            }
            break;
        case U_BADFILE: {
            gtl::BinaryInputArchive in("/proc/self/fd/999999/none");
            gtl::BinaryOutputArchive out("/proc/self/fd/999999/none");
            Op n; n.code = op.code;
            ok = guarded(n, threw, [&] { return C[i]->phmap_dump(out); });
            if (ok) fail("dump-error", "dump to a file that cannot be opened returned true");
            ok = guarded(n, threw, [&] { return C[i]->phmap_load(in); });
            loaded(i, ok, threw, false, sm, "load of a missing file");
            break;
        }
        }
        tr = (int64_t)(M[0].size() * 1000 + M[1].size()) + (threw ? 1 << 20 : 0);
        disarm();
        cmp(0, uname_(0, op.code)); cmp(1, uname_(0, op.code));
        trace_op(0, op.code, tr);
    }
    void run(const Case& c) {
        K = c.params[0]; g_hash_mode = (int)c.params[1]; seed = (int)c.params[2];
        stored.clear(); sm.clear(); sm2.clear(); complete = two = false; M[0].clear(); M[1].clear();
        g_io_on = false;
        file_open();
        std::cerr.setstate(std::ios::failbit);
        { Active a; C[0] = mk(0); C[1] = mk(1); }
        for (auto& o : c.threads[0]) step(o);
        { Active a; sim_delete(C[0]); sim_delete(C[1]); }
        stored = Bytes(); sm.clear(); sm2.clear(); M[0].clear(); M[1].clear();
    }
};

void dgen(Rng& r, Case& c) {
    int64_t K = r.chance(1, 2) ? r.range(2, 12) : r.range(20, 90);
    c.params = { K, r.chance(1, 2) ? 0 : (int64_t)r.below(5), (int64_t)r.below(4) };
    c.threads.resize(1);
    int m = (int)r.range(4, 30);
    bool faults = r.chance(3, 4);
    for (int i = 0; i < m; ++i) {
        Op o;
        int x = (int)r.below(100);
        o.code = x < 18 ? U_INS : x < 28 ? U_INSN : x < 34 ? U_ERASE : x < 40 ? U_ERASEN : x < 42 ? U_CLEAR : x < 45 ? U_RESERVE : x < 48 ? U_REHASH
               : x < 55 ? U_DUMP : x < 58 ? U_DUMPV : x < 66 ? U_DUMPF : x < 69 ? U_DUMPFS : x < 72 ? U_DUMP2 : x < 78 ? U_LOAD : x < 81 ? U_LOADV : x < 88 ? U_LOADF : x < 91 ? U_LOADFS : x < 93 ? U_LOAD2 : x < 96 ? U_TRUNC : x < 98 ? U_OLD : x < 99 ? U_CROSS : U_BADFILE;
        o.a = (int64_t)r.below((uint64_t)K); o.b = (int64_t)r.below(2); o.c = (int64_t)r.below(100000);
        if (faults && r.chance(1, 3)) {
            if (o.code == U_INS || o.code == U_RESERVE || o.code == U_REHASH) { o.fk = F_ALLOC; o.fn = 1; }
            else if (o.code == U_DUMPF || o.code == U_DUMPFS) { int k = (int)r.below(4); o.fk = k == 0 ? F_IO : k == 1 ? F_SHORT : k == 2 ? F_EINTR : F_CRASH; o.fn = (int)r.range(1, 8); }
            else if (o.code == U_LOADF || o.code == U_LOADFS) { int k = (int)r.below(4); o.fk = k == 0 ? F_IO : k == 1 ? F_SHORT : k == 2 ? F_EINTR : F_ALLOC; o.fn = k == 3 ? (int)r.range(1, 5) : (int)r.range(1, 3); }
            else if (o.code == U_DUMP || o.code == U_DUMP2) { o.fk = r.chance(1, 2) ? F_IO : F_SHORT; o.fn = (int)r.range(1, 14); }
            else if (o.code == U_DUMPV) { o.fk = F_IO; o.fn = (int)r.range(1, 8); }
            else if (o.code == U_LOAD || o.code == U_LOAD2 || o.code == U_OLD) { int k = (int)r.below(3); o.fk = k == 0 ? F_IO : k == 1 ? F_SHORT : F_ALLOC; o.fn = k == 2 ? (int)r.range(1, 5) : (int)r.range(1, 14); }
            else if (o.code == U_LOADV) { o.fk = r.chance(1, 2) ? F_IO : F_ALLOC; o.fn = (int)r.range(1, 8); }
        }
        c.threads[0].push_back(o);
    }
}

using FM = gtl::flat_hash_map<int64_t, int64_t, KHash>;
using FS = gtl::flat_hash_set<int64_t, KHash>;
using PM = gtl::parallel_flat_hash_map<int64_t, int64_t, KHash, std::equal_to<int64_t>, std::allocator<std::pair<const int64_t, int64_t>>, 2, std::mutex>;
using PS = gtl::parallel_flat_hash_set<int64_t, KHash, std::equal_to<int64_t>, std::allocator<int64_t>, 1, gtl::NullMutex>;
using SFM = gtl::flat_hash_map<int64_t, int64_t, SHash<int64_t>, SEq<int64_t>, SAlloc<std::pair<const int64_t, int64_t>>>;
using SPM = gtl::parallel_flat_hash_map<int64_t, int64_t, SHash<int64_t>, SEq<int64_t>, SAlloc<std::pair<const int64_t, int64_t>, false, false, true>, 1, std::mutex>;
template<class T, bool MAP, bool PAR, bool ST = false> void drun(const Case& c) { static auto* d = new Dump<T, MAP, PAR, ST>(); d->run(c); }
Harness h1{ "dump_fm", dgen, drun<FM, true, false>, uname_, nullptr };
Harness h2{ "dump_fs", dgen, drun<FS, false, false>, uname_, nullptr };
Harness h3{ "dump_pm", dgen, drun<PM, true, true>, uname_, nullptr };
Harness h4{ "dump_ps", dgen, drun<PS, false, true>, uname_, nullptr };
Harness h5{ "dump_sfm", dgen, drun<SFM, true, false, true>, uname_, nullptr };
Harness h6{ "dump_spm", dgen, drun<SPM, true, true, true>, uname_, nullptr };
Reg r1(&h1), r2(&h2), r3(&h3), r4(&h4), r5(&h5), r6(&h6);

// ---- dump and load while other threads use the container
enum { X_SET, X_ERASE, X_GET, X_DUMP, X_LOAD, X_N };
const char* xname(int, int c) { static const char* n[] = { "insert_or_assign", "erase", "if_contains", "dump", "load" }; return c >= 0 && c < X_N ? n[c] : "?"; }
using XM = gtl::parallel_flat_hash_map<int64_t, int64_t, KHash, std::equal_to<int64_t>, std::allocator<std::pair<const int64_t, int64_t>>, 1, std::shared_mutex>;
using XD = XM;
struct XRec { int tid, code; int64_t key, wr; uint64_t inv, res; int64_t result = -1, seen = -1; std::map<int64_t, int64_t> all; };
void xrun(const Case& c) {
    static std::vector<XRec>* rec = new std::vector<XRec>();
    rec->clear();
    int64_t K = c.params[0]; g_hash_mode = (int)c.params[1];
    std::cerr.setstate(std::ios::failbit);
    Bytes fixed; std::map<int64_t, int64_t> fixedm;
    XD* m;
    std::vector<int64_t> init((size_t)K, -1);
    {
        Active a;
        m = sim_new<XD>();
        XD* t = sim_new<XD>();
        for (int64_t k = 0; k < K; ++k) { if (c.params[2] >> k & 1) { t->insert_or_assign(k, 900 + k); Ignore g; fixedm[k] = 900 + k; } if (c.params[3] >> k & 1) { m->insert_or_assign(k, 100 + k); init[(size_t)k] = 100 + k; } }
        BoolOut o{ fixed };
        t->phmap_dump(o);
        sim_delete(t);
    }
    auto undump = [&](const Bytes& b) {
        std::map<int64_t, int64_t> r; Active a; XD* t = sim_new<XD>(); BoolIn in{ b };
        if (!t->phmap_load(in)) fail("roundtrip", "a dump made while other threads used the container cannot be loaded");
        for (auto it = t->begin(); it != t->end(); ++it) { int64_t k = it->first, v = it->second; Ignore g; if (!r.emplace(k, v).second) fail("roundtrip", "a concurrent dump holds a key twice"); }
        for (auto& kv : r) if (!t->contains(kv.first)) fail("roundtrip", "a key of a concurrent dump is not found after loading");
        if (t->size() != r.size()) fail("roundtrip", "a concurrent dump has size() %zu but %zu elements", t->size(), r.size());
        sim_delete(t);
        return r;
    };
    auto one = [&](int tid, const Op& o) {
        XRec r; r.tid = tid; r.code = o.code; r.key = o.a; r.wr = o.c; r.inv = now_seq();
        Bytes b;
        {
            Active a;
            switch (o.code) {
            case X_SET: r.result = m->insert_or_assign(o.a, o.c).second; break;
            case X_ERASE: r.result = (int64_t)m->erase(o.a); break;
            case X_GET: r.result = m->if_contains(o.a, [&](const XM::value_type& v) { r.seen = v.second; }); break;
            case X_DUMP: { BoolOut out{ b }; r.result = std::as_const(*m).phmap_dump(out); break; }
            case X_LOAD: { BoolIn in{ fixed }; r.result = m->phmap_load(in); break; }
            }
        }
        if (held_locks(tid)) fail("lock-leak", "%s returned holding a lock", xname(0, o.code));
        r.res = now_seq();
        if (o.code >= X_DUMP && r.result != 1) fail("dump-error", "%s failed although nothing went wrong", xname(0, o.code));
        if (o.code == X_DUMP) r.all = undump(b);
        trace_op(tid, o.code, r.result);
        rec->push_back(std::move(r));
    };
    run_threads((int)c.threads.size(), [&](int tid) { for (auto& o : c.threads[(size_t)tid - 1]) one(tid, o); });
    Op fin; fin.code = X_DUMP; one(0, fin);
    std::vector<size_t> sub((size_t)K);
    for (int64_t k = 0; k < K; ++k) sub[(size_t)k] = submap_of<XD>(KHash()(k));
    for (size_t q = 0; q < 2; ++q) {
        std::vector<LinOp> ops;
        for (auto& r : *rec) {
            LinOp o; o.tid = r.tid; o.inv = r.inv; o.res = r.res; size_t i = (size_t)r.key; int64_t w = r.wr, rs = r.result, seen = r.seen;
            char b[128]; snprintf(b, sizeof b, "  [%llu..%llu] T%d %s key=%lld wr=%lld result=%lld seen=%lld", (unsigned long long)r.inv, (unsigned long long)r.res, r.tid, xname(0, r.code), (long long)r.key, (long long)w, (long long)rs, (long long)seen);
            o.text = b;
            if (r.code <= X_GET && sub[i] != q) continue;
            switch (r.code) {
            case X_SET: o.apply = [=](std::vector<int64_t>& st) { if ((st[i] < 0) != (rs == 1)) return false; st[i] = w; return true; }; break;
            case X_ERASE: o.apply = [=](std::vector<int64_t>& st) { if ((st[i] >= 0) != (rs == 1)) return false; st[i] = -1; return true; }; break;
            case X_GET: o.apply = [=](std::vector<int64_t>& st) { return (st[i] >= 0) == (rs == 1) && (rs != 1 || st[i] == seen); }; break;
            case X_DUMP: { auto all = r.all; o.apply = [=](std::vector<int64_t>& st) { for (size_t k = 0; k < st.size(); ++k) if (sub[k] == q) { auto it = all.find((int64_t)k); if (st[k] != (it == all.end() ? -1 : it->second)) return false; } return true; }; break; }
            case X_LOAD: o.apply = [=](std::vector<int64_t>& st) { for (size_t k = 0; k < st.size(); ++k) if (sub[k] == q) { auto it = fixedm.find((int64_t)k); st[k] = it == fixedm.end() ? -1 : it->second; } return true; }; break;
            }
            ops.push_back(std::move(o));
        }
        auto res = linearizable(ops, init);
        count(res.exhausted ? "lin_budget_exhausted" : "lin_checked");
        if (!res.ok) { for (auto& o : ops) note("%s", o.text.c_str()); fail("linearizability", "history of submap %zu with dumps and loads has no linearization", q); }
    }
    rec->clear(); rec->shrink_to_fit();
    { Active a; sim_delete(m); }
}
void xgen(Rng& r, Case& c) {
    int64_t K = r.range(1, 6);
    c.params = { K, r.chance(1, 2) ? 0 : (int64_t)r.below(5), (int64_t)r.below(1ull << K), (int64_t)r.below(1ull << K) };
    c.threads.resize((size_t)r.range(2, 3));
    int64_t uid = 1;
    bool ld = r.chance(1, 2);
    for (size_t t = 0; t < c.threads.size(); ++t) {
        int m = (int)r.range(1, 4);
        for (int i = 0; i < m; ++i) { Op o; o.code = (t == 0 || r.chance(1, 6)) ? (ld && r.chance(1, 2) ? X_LOAD : X_DUMP) : (int)r.below(3); o.a = (int64_t)r.below((uint64_t)K); o.c = uid++ * 10; c.threads[t].push_back(o); }
    }
}
Harness hx{ "dumpmt", xgen, xrun, xname, nullptr };
Reg rx(&hx);
}
