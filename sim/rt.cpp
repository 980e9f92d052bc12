// Deterministic simulation runtime: scheduler, race detector, shadow heap, fault plans.
// See rt.h. This file is NOT instrumented.
#include <dlfcn.h>
#include "rt.h"
#include <cerrno>
#include <sys/wait.h>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <execinfo.h>
#include <new>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <fcntl.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" {
extern char __data_start[];
extern char _end[];
int  __cxa_guard_acquire(uint64_t*);
void __cxa_guard_release(uint64_t*);
void __cxa_guard_abort(uint64_t*);
}
// Harness objects have their references to these functions renamed to __wrap_* with
// objcopy, so inside this file the plain names are the native functions.
#define __real_pthread_mutex_lock pthread_mutex_lock
#define __real_pthread_mutex_trylock pthread_mutex_trylock
#define __real_pthread_mutex_unlock pthread_mutex_unlock
#define __real_pthread_rwlock_rdlock pthread_rwlock_rdlock
#define __real_pthread_rwlock_wrlock pthread_rwlock_wrlock
#define __real_pthread_rwlock_tryrdlock pthread_rwlock_tryrdlock
#define __real_pthread_rwlock_trywrlock pthread_rwlock_trywrlock
#define __real_pthread_rwlock_unlock pthread_rwlock_unlock
#define __real___cxa_guard_acquire __cxa_guard_acquire
#define __real___cxa_guard_release __cxa_guard_release
#define __real___cxa_guard_abort __cxa_guard_abort
#define __real_sched_yield sched_yield
#define __real_malloc malloc
#define __real_free free
#define __real_calloc calloc
#define __real_realloc realloc

namespace sim {
void* tagged_alloc(int id, size_t n, size_t al);
void  tagged_free(int id, void* p, size_t n);

thread_local int t_active = 0;
FILE* (*g_fopen_hook)(const char*, const char*) = nullptr;
int (*g_mem_open)(const char*) = nullptr;
int (*g_sysinfo_hook)(void*) = nullptr;
int64_t g_clock_ns = 0, g_wall_ns = 0, g_clock_jump = 0, g_clock_tick = 0;
bool    g_clock_on = false;

static const char* const kFaultNames[F_KINDS] = { "none", "alloc", "ctor", "callback", "io", "short_io", "crash",
                                                  "clock", "corrupt", "eintr" };
const char* fault_name(int k) { return k >= 0 && k < F_KINDS ? kFaultNames[k] : "?"; }

// ------------------------------------------------------------------ constants
constexpr int       MAXT     = 8;  // including main (0)
constexpr uintptr_t ARENA    = 0x100000000000ull;
constexpr size_t    ARENA_SZ = 32u << 20;
constexpr size_t    REDZONE  = 32;

struct VC {
    uint32_t c[MAXT];
    void     join(const VC& o) {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum TState { T_IDLE, T_READY, T_BLOCKED, T_DONE };

struct Thr {
    int      id = 0;
    int      go = 0;  // futex
    TState   st = T_IDLE;
    VC       vc, pend, relf;
    uint64_t lstep = 0;
    uintptr_t waitobj = 0;
    const char* waitwhat = "";
    int      prio = 0;
    uint64_t blocked_since = 0;
    // fault plan
    int      fk = 0, fn = 0, fcount[F_KINDS] = {};
    bool     fired = false;
    uint64_t allocs = 0;
    // explicit schedule cursor
    size_t   cur = 0;
    pthread_t th{};
    void reset() {
        st = T_IDLE; memset(&vc, 0, sizeof vc); memset(&pend, 0, sizeof pend); memset(&relf, 0, sizeof relf);
        lstep = 0; waitobj = 0; prio = 0; fk = fn = 0; memset(fcount, 0, sizeof fcount); fired = false; allocs = 0; cur = 0;
    }
};

struct Lock {
    uintptr_t addr;
    int       writer;          // owning tid or -1
    int       readers[MAXT];   // read holds per thread
    int       nreaders;
    int       wwait;           // waiting writers
    VC        wvc, rvc;
};

struct Atom { uintptr_t addr; size_t size; VC rel; uint32_t last[MAXT]; uint32_t lastw[MAXT]; };

struct Block { uintptr_t addr; size_t size; size_t align; int state; /*1 live 2 freed*/ };

template<class T>
struct Vec {  // malloc-backed, usable while t_active > 0
    T*     d = nullptr;
    size_t n = 0, cap = 0;
    T&     operator[](size_t i) { return d[i]; }
    void   push(const T& v) {
        if (n == cap) {
            cap = cap ? cap * 2 : 256;
            d   = (T*)realloc((void*)d, cap * sizeof(T));
        }
        d[n++] = v;
    }
    void clear() { n = 0; }
};

template<class V>
struct AddrMap {  // small open-addressing map from address to index in a Vec
    Vec<V>    v;
    uint32_t* tab = nullptr;
    size_t    cap = 0;
    void init(size_t c) { cap = c; tab = (uint32_t*)calloc(cap, 4); }
    void clear() { if (v.n) memset(tab, 0, cap * 4); v.clear(); }
    static size_t h(uintptr_t a) { return (size_t)(a * 0x9e3779b97f4a7c15ull >> 20); }
    V* find(uintptr_t a) {
        for (size_t i = h(a) & (cap - 1);; i = (i + 1) & (cap - 1)) {
            if (!tab[i]) return nullptr;
            if (v[tab[i] - 1].addr == a) return &v[tab[i] - 1];
        }
    }
    V* get(uintptr_t a, bool& created) {
        created = false;
        size_t i = h(a) & (cap - 1);
        for (;; i = (i + 1) & (cap - 1)) {
            if (!tab[i]) break;
            if (v[tab[i] - 1].addr == a) return &v[tab[i] - 1];
        }
        if (v.n * 2 >= cap) {
            free(tab); cap *= 2; tab = (uint32_t*)calloc(cap, 4);
            for (size_t k = 0; k < v.n; ++k) { size_t q = h(v[k].addr) & (cap - 1); while (tab[q]) q = (q + 1) & (cap - 1); tab[q] = (uint32_t)(k + 1); }
            for (i = h(a) & (cap - 1); tab[i];) i = (i + 1) & (cap - 1);
        }
        V nv; memset((void*)&nv, 0, sizeof nv); nv.addr = a;
        v.push(nv); tab[i] = (uint32_t)v.n; created = true;
        return &v[v.n - 1];
    }
};

struct ObjEnt { uintptr_t addr; int live; };

// ------------------------------------------------------------------ globals
static Thr*             T;            // MAXT
static thread_local Thr* me = nullptr;

struct Run {
    const Case* cs = nullptr;
    bool     conc = false;
    int      nthr = 0;
    int      current = 0;
    uint64_t step = 0, seq = 0, max_steps = 4000000, soft = 400000, max_seq = 30000000, ops = 0;
    uint64_t hash = 0, shash = 0;
    int64_t  countdown = 0;
    Rng      rng{ 1 };
    int      strat = 0;
    int      psync_num = 1, psync_den = 2;
    int64_t  plain_mean = 0;  // 0 = never
    int      writer_pref = 0;
    uint64_t chg[8]; int nchg = 0;
    bool     pct_plain = false;
    uint64_t pctstep = 0;
    int      stall_tid = -1; uint64_t stall_at = 0, stall_for = 0;
    uint64_t switches = 0, syncs = 0, accesses = 0;
    int      live_threads = 0;
    bool     reuse = false;
    uint64_t phase = 0;
} R;

static Vec<Switch>      g_rec;
static Vec<Switch>      g_explicit[MAXT];
static AddrMap<Lock>    g_locks;
static AddrMap<Atom>    g_atoms;
static Vec<Block>       g_blocks;
static AddrMap<ObjEnt>  g_objs;
static size_t           g_obj_live;
static uintptr_t        g_bump;
static size_t           g_live_blocks, g_live_bytes;
static uint8_t*         sh_state;   // per arena byte
static uint32_t *       sh_w, *sh_r;
static uintptr_t        data_lo, data_hi;
static uint32_t *       dsh_w, *dsh_r;
static Vec<VC>          g_rvc;
static std::function<void(int)> g_body;
static int              g_main_go = 0;
static volatile time_t  g_run_start = 0;
static std::string      g_viol_path;
static bool             g_replaying = false;
static bool             g_quiet = false;
static Vec<char>        g_notes;
static std::map<std::string, uint64_t>* g_counts;
static uint64_t         g_fault_counts[F_KINDS];
static uint64_t         g_fault_armed[F_KINDS];
static uint64_t         g_fault_total;
static double           g_sim_time = 0;
static Harness*         g_harness = nullptr;
static bool             g_in_fail = false;

// ------------------------------------------------------------------ futex helpers
static void fwait(int* p) {
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(int* p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static inline void mix(uint64_t& h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

// ------------------------------------------------------------------ case I/O
static void write_case(FILE* f, const Case& c, bool with_rec) {
    fprintf(f, "harness %s\nvariant %d\nseed %llu\n", c.harness.c_str(), c.variant, (unsigned long long)c.seed);
    fprintf(f, "params %zu", c.params.size());
    for (auto p : c.params) fprintf(f, " %lld", (long long)p);
    fprintf(f, "\nthreads %zu\n", c.threads.size());
    for (size_t t = 0; t < c.threads.size(); ++t) {
        fprintf(f, "thread %zu %zu\n", t, c.threads[t].size());
        for (auto& o : c.threads[t])
            fprintf(f, "op %d %d %d %lld %lld %lld\n", o.code, o.fk, o.fn, (long long)o.a, (long long)o.b, (long long)o.c);
    }
    if (with_rec) {
        fprintf(f, "sched explicit %d %zu\n", R.writer_pref, g_rec.n);
        for (size_t i = 0; i < g_rec.n; ++i)
            fprintf(f, "sw %d %llu %d %d\n", g_rec[i].tid, (unsigned long long)g_rec[i].lstep, g_rec[i].forced, g_rec[i].target);
    } else
        fprintf(f, "sched seed %llu %d\n", (unsigned long long)c.sched_seed, c.strategy);
    fprintf(f, "end\n");
}

static bool read_case(FILE* f, Case& c, int& wpref) {
    char key[64], buf[256];
    wpref = 0;
    while (fscanf(f, "%63s", key) == 1) {
        std::string k = key;
        if (k[0] == '#') { int ch; while ((ch = fgetc(f)) != EOF && ch != '\n'); continue; }
        if (k == "harness") { if (fscanf(f, "%255s", buf) != 1) return false; c.harness = buf; }
        else if (k == "variant") { if (fscanf(f, "%d", &c.variant) != 1) return false; }
        else if (k == "seed") { unsigned long long s; if (fscanf(f, "%llu", &s) != 1) return false; c.seed = s; }
        else if (k == "params") {
            size_t n; if (fscanf(f, "%zu", &n) != 1) return false;
            c.params.clear();
            for (size_t i = 0; i < n; ++i) { long long v; if (fscanf(f, "%lld", &v) != 1) return false; c.params.push_back(v); }
        } else if (k == "threads") { size_t n; if (fscanf(f, "%zu", &n) != 1) return false; c.threads.assign(n, {}); }
        else if (k == "thread") {
            size_t t, n; if (fscanf(f, "%zu %zu", &t, &n) != 2 || t >= c.threads.size()) return false;
            for (size_t i = 0; i < n; ++i) {
                Op o; long long a, b, cc;
                if (fscanf(f, " op %d %d %d %lld %lld %lld", &o.code, &o.fk, &o.fn, &a, &b, &cc) != 6) return false;
                o.a = a; o.b = b; o.c = cc; c.threads[t].push_back(o);
            }
        } else if (k == "sched") {
            if (fscanf(f, "%255s", buf) != 1) return false;
            if (std::string(buf) == "explicit") {
                size_t n; if (fscanf(f, "%d %zu", &wpref, &n) != 2) return false;
                c.explicit_sched = true;
                for (size_t i = 0; i < n; ++i) {
                    Switch s; unsigned long long l;
                    if (fscanf(f, " sw %d %llu %d %d", &s.tid, &l, &s.forced, &s.target) != 4) return false;
                    s.lstep = l; c.sched.push_back(s);
                }
            } else { unsigned long long s; if (fscanf(f, "%llu %d", &s, &c.strategy) != 2) return false; c.sched_seed = s; }
        } else if (k == "end") return true;
    }
    return false;
}

// ------------------------------------------------------------------ failure
static void describe_case(FILE* f, const Case& c) {
    for (size_t t = 0; t < c.threads.size(); ++t)
        for (size_t i = 0; i < c.threads[t].size(); ++i) {
            auto& o = c.threads[t][i];
            fprintf(f, "#   thread %zu op %zu: %s(%lld,%lld,%lld)", t + 1, i,
                    g_harness && g_harness->opname ? g_harness->opname(c.variant, o.code) : "op", (long long)o.a, (long long)o.b, (long long)o.c);
            if (o.fk) fprintf(f, "  [fault %s #%d]", fault_name(o.fk), o.fn);
            fprintf(f, "\n");
        }
}

void fail(const char* kind, const char* fmt, ...) {
    t_active = 0;
    if (g_in_fail) _exit(4);
    g_in_fail = true;
    char msg[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    for (char* p = msg; *p; ++p) if (*p == '\n') *p = ' ';
    mix(R.hash, 0xdead);
    FILE* f = g_viol_path.empty() ? nullptr : fopen(g_viol_path.c_str(), "w");
    if (f && R.cs) {
        write_case(f, *R.cs, true);
        fprintf(f, "# kind %s\n# msg %s\n# hash %016llx\n# step %llu thread %d\n", kind, msg, (unsigned long long)R.hash,
                (unsigned long long)R.step, me ? me->id : 0);
        describe_case(f, *R.cs);
        if (g_replaying) {
            void* bt[24]; int nb = backtrace(bt, 24);
            fprintf(f, "# bt");
            for (int i = 1; i < nb; ++i) fprintf(f, " %p", bt[i]);
            fprintf(f, "\n");
        }
        if (g_notes.n) { fprintf(f, "# history:\n"); fwrite(g_notes.d, 1, g_notes.n, f); }
        fclose(f);
    }
    printf("VIOL kind=%s seed=%llu hash=%016llx msg=%s\n", kind, R.cs ? (unsigned long long)R.cs->seed : 0ull, (unsigned long long)R.hash, msg);
    fflush(stdout);
    _exit(3);
}

static void on_signal(int sig, siginfo_t* si, void*) {
    if (sig == SIGALRM) {
        if (g_run_start && time(nullptr) - g_run_start > 100) fail("hang", "a single simulated run did not finish within 100 s of wall time");
        return;
    }
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
    uintptr_t a = (uintptr_t)si->si_addr;
    // do not print addresses that are not simulated (they may vary run to run)
    if (sig == SIGABRT) fail("crash", "SIGABRT: std::terminate/abort (exception escaped a noexcept function?)");
    if (a < 4096) fail("crash", "%s near null", n);
    if (a - ARENA < ARENA_SZ) fail("crash", "%s at arena+%zx", n, (size_t)(a - ARENA));
    fail("crash", "%s", n);
}

void note(const char* fmt, ...) {
    if (!g_replaying) return;
    char b[512];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    const char* pre = "#   ";
    for (const char* p = pre; *p; ++p) g_notes.push(*p);
    for (int i = 0; i < n; ++i) g_notes.push(b[i]);
    g_notes.push('\n');
}

// ------------------------------------------------------------------ scheduling
static bool runnable(int t) { return t >= 1 && t <= R.nthr && T[t].st == T_READY; }
static int  pick_default(int from) {
    for (int i = 1; i <= R.nthr; ++i) {
        int t = (from - 1 + i) % R.nthr + 1;
        if (runnable(t)) return t;
    }
    return -1;
}
static int pick_random(int not_tid) {
    int c[MAXT], n = 0;
    for (int t = 1; t <= R.nthr; ++t)
        if (runnable(t) && t != not_tid) c[n++] = t;
    if (!n) return -1;
    return c[R.rng.below((uint64_t)n)];
}
static int pick_prio(int not_tid) {
    int best = -1;
    for (int t = 1; t <= R.nthr; ++t)
        if (runnable(t) && t != not_tid && (best < 0 || T[t].prio > T[best].prio)) best = t;
    return best;
}

static void transfer(Thr* from, int to, bool wait) {
    R.current = to;
    R.switches++;
    mix(R.hash, 0x51000000ull + (uint64_t)to);
    mix(R.shash, 0x51000000ull + (uint64_t)to);
    fwake(&T[to].go);
    if (wait) fwait(&from->go);
}

enum { P_PLAIN = 0, P_SYNC = 1, P_YIELD = 2 };

static void sched_point(int kind) {
    Thr* t = me;
    t->lstep++;
    R.step++;
    int target = -1, dflt = -1;
    if (__builtin_expect(R.step > R.max_steps, 0))
        fail("livelock", "no completion after %llu scheduling steps (threads spinning without progress)", (unsigned long long)R.max_steps);
    if (kind == P_YIELD) dflt = pick_default(t->id);
    if (R.cs->explicit_sched) {
        auto& L = g_explicit[t->id];
        while (t->cur < L.n && (L[t->cur].lstep < t->lstep)) t->cur++;
        target = dflt;
        if (t->cur < L.n && L[t->cur].lstep == t->lstep && !L[t->cur].forced) {
            target = L[t->cur].target;
            t->cur++;
        }
    } else if (R.step > R.soft) {  // fair phase: bounded-progress check
        if (kind != P_PLAIN || R.rng.below(64) == 0) target = pick_random(-1);
    } else {
        switch (R.strat) {
        case 0:  // random walk
            if (kind == P_PLAIN) {
                if (R.plain_mean && --R.countdown <= 0) {
                    R.countdown = 1 + (int64_t)R.rng.below((uint64_t)(2 * R.plain_mean));
                    target = pick_random(-1);
                }
            } else if (kind == P_YIELD) target = pick_random(t->id);
            else if ((int)R.rng.below((uint64_t)R.psync_den) < R.psync_num) target = pick_random(-1);
            break;
        case 1:  // PCT
            if (kind == P_PLAIN && !R.pct_plain) return;
            R.pctstep++;
            for (int i = 0; i < R.nchg; ++i)
                if (R.chg[i] == R.pctstep) t->prio = -(i + 1);
            if (kind == P_YIELD) { t->prio = -1000 - (int)(R.step & 0xffff); target = pick_prio(t->id); }
            else target = pick_prio(-1);
            break;
        case 2:  // long stall of one thread
            if (t->id == R.stall_tid && t->lstep >= R.stall_at && R.stall_for) {
                target = pick_random(t->id);
                R.stall_for--;
            } else if (kind == P_YIELD) target = pick_random(t->id);
            else if (kind == P_SYNC && R.rng.below(8) == 0) target = pick_random(R.stall_for && t->lstep > 0 ? R.stall_tid : -1);
            break;
        }
    }
    if (target >= 1 && target != t->id && runnable(target)) {
        if (!(kind == P_YIELD && target == dflt)) { Switch s{ t->id, t->lstep, 0, target }; g_rec.push(s); }
        transfer(t, target, true);
    } else if (kind == P_YIELD && dflt >= 1 && dflt != t->id && runnable(dflt) && target == t->id) {
        Switch s{ t->id, t->lstep, 0, t->id }; g_rec.push(s);  // explicitly stay
    }
}

static int choose_forced(Thr* t) {
    int dflt = pick_default(t->id), target = dflt;
    if (dflt < 0) return -1;
    if (R.cs->explicit_sched) {
        auto& L = g_explicit[t->id];
        while (t->cur < L.n && L[t->cur].lstep < t->lstep) t->cur++;
        if (t->cur < L.n && L[t->cur].lstep == t->lstep && L[t->cur].forced) {
            if (runnable(L[t->cur].target)) target = L[t->cur].target;
            t->cur++;
        }
    } else {
        target = R.strat == 1 ? pick_prio(-1) : pick_random(-1);
        if (R.strat == 2 && R.stall_for && target == R.stall_tid) { int o = pick_random(R.stall_tid); if (o > 0) target = o; }
    }
    if (target != dflt) { Switch s{ t->id, t->lstep, 1, target }; g_rec.push(s); }
    return target;
}

static void describe_deadlock(char* b, size_t n) {
    size_t k = 0;
    for (int t = 1; t <= R.nthr; ++t)
        if (T[t].st == T_BLOCKED) {
            Lock* l = g_locks.find(T[t].waitobj);
            int holder = -1; int rd = 0;
            if (l) { holder = l->writer; for (int r = 0; r < MAXT; ++r) if (l->readers[r]) { rd++; if (holder < 0) holder = r; } }
            k += (size_t)snprintf(b + k, n - k, " thread %d waits for %s at arena+%zx held by thread %d%s;", t, T[t].waitwhat,
                          (size_t)(T[t].waitobj - ARENA), holder, rd ? " (shared)" : "");
            if (k >= n) break;
        }
}

static void block_on(uintptr_t obj, const char* what) {
    Thr* t = me;
    if (!R.conc) fail("deadlock", "thread blocks on %s at arena+%zx which it (or nobody running) holds", what, (size_t)(obj - ARENA));
    t->st = T_BLOCKED;
    t->waitobj = obj;
    t->waitwhat = what;
    int to = choose_forced(t);
    if (to < 0) {
        char b[1024]; b[0] = 0;
        describe_deadlock(b, sizeof b);
        fail("deadlock", "all threads blocked:%s", b);
    }
    transfer(t, to, true);
}
static void wake_waiters(uintptr_t obj) {
    for (int i = 1; i <= R.nthr; ++i)
        if (T[i].st == T_BLOCKED && T[i].waitobj == obj) T[i].st = T_READY;
}

// ------------------------------------------------------------------ race detection
static inline uint32_t ep(Thr* t) { return ((uint32_t)t->id << 24) | t->vc.c[t->id]; }
static inline bool     hb(uint32_t e, Thr* t) { return (e & 0xffffff) <= t->vc.c[e >> 24]; }
static void            race_fail(uintptr_t a, Thr* t, bool w, int other, bool ow) {
    if (a - ARENA < ARENA_SZ) {
        size_t off = 0; uintptr_t base = 0;
        for (size_t i = 0; i < g_blocks.n; ++i)
            if (a >= g_blocks[i].addr && a < g_blocks[i].addr + g_blocks[i].size) { base = g_blocks[i].addr; off = a - base; }
        fail("data-race", "%s by thread %d conflicts with unordered %s by thread %d (block arena+%zx, offset %zu)", w ? "write" : "read", t->id,
             ow ? "write" : "read", other, (size_t)(base - ARENA), off);
    }
    fail("data-race", "%s by thread %d conflicts with unordered %s by thread %d (static data)", w ? "write" : "read", t->id, ow ? "write" : "read", other);
}

static void race_bytes(uint32_t* W, uint32_t* Rd, uintptr_t base, uintptr_t a, size_t n, bool w, bool atomic) {
    Thr*     t = me;
    uint32_t e = ep(t);
    for (size_t i = 0; i < n; ++i) {
        size_t   o  = a + i - base;
        uint32_t we = W[o], re = Rd[o];
        if (we && (we >> 24) != (uint32_t)t->id && !hb(we, t)) race_fail(a + i, t, w, (int)(we >> 24), true);
        if (w) {
            if (re & 0x80000000u) {
                VC& v = g_rvc[re & 0x7fffffffu];
                for (int k = 0; k < MAXT; ++k)
                    if (k != t->id && v.c[k] > t->vc.c[k]) race_fail(a + i, t, w, k, false);
            } else if (re && (re >> 24) != (uint32_t)t->id && !hb(re, t))
                race_fail(a + i, t, w, (int)(re >> 24), false);
            if (!atomic) { W[o] = e; Rd[o] = 0; }
        } else if (!atomic) {
            if (re == e) continue;
            if (re & 0x80000000u) g_rvc[re & 0x7fffffffu].c[t->id] = t->vc.c[t->id];
            else if (!re || (re >> 24) == (uint32_t)t->id || hb(re, t)) Rd[o] = e;
            else {
                VC v; memset(&v, 0, sizeof v);
                v.c[re >> 24] = re & 0xffffff;
                v.c[t->id]    = t->vc.c[t->id];
                g_rvc.push(v);
                Rd[o] = 0x80000000u | (uint32_t)(g_rvc.n - 1);
            }
        }
    }
}

static void heap_fail(uintptr_t a, size_t n, bool w) {
    uintptr_t bad = a;
    for (size_t i = 0; i < n; ++i) if (sh_state[a + i - ARENA] != 1) { bad = a + i; break; }
    int st = sh_state[bad - ARENA];
    for (size_t i = g_blocks.n; i-- > 0;) {
        Block& b = g_blocks[i];
        if (bad >= b.addr - REDZONE && bad < b.addr + b.size + REDZONE) {
            fail(st == 2 ? "use-after-free" : "out-of-bounds", "%zu-byte %s at offset %lld of a %zu-byte %s block", n, w ? "write" : "read",
                 (long long)(bad - b.addr), b.size, b.state == 2 ? "freed" : "live");
        }
    }
    fail(st == 2 ? "use-after-free" : "out-of-bounds", "%zu-byte %s of unallocated memory", n, w ? "write" : "read");
}

static inline void mem(uintptr_t a, size_t n, bool w) {
    if (a - ARENA < ARENA_SZ) {
        for (size_t i = 0; i < n; ++i)
            if (__builtin_expect(sh_state[a + i - ARENA] != 1, 0)) heap_fail(a, n, w);
        if (R.conc) {
            race_bytes(sh_w, sh_r, ARENA, a, n, w, false);
            if (g_atoms.v.n) {  // plain access to a location also used atomically
                for (size_t q = 0; q < g_atoms.v.n; ++q) {
                    Atom* at = &g_atoms.v[q];
                    if (at->addr >= a + n || at->addr + at->size <= a) continue;
                    Thr* t = me;
                    for (int k = 0; k < MAXT; ++k)
                        if (k != t->id && ((w ? at->last[k] : at->lastw[k]) > t->vc.c[k])) race_fail(a, t, w, k, true);
                }
            }
        }
    } else if (R.conc && a >= data_lo && a + n <= data_hi)
        race_bytes(dsh_w, dsh_r, data_lo, a, n, w, false);
}

static inline void acc(uintptr_t a, size_t n, bool w) {
    if (t_active <= 0) return;
    R.accesses++;
    if (R.conc) sched_point(P_PLAIN);
    else if (__builtin_expect(R.accesses > R.max_seq, 0)) fail("livelock", "a single-threaded run made %llu memory accesses without finishing (endless loop)", (unsigned long long)R.max_seq);
    mem(a, n, w);
}

void check_range(const void* p, size_t n, bool w) { if (t_active > 0) mem((uintptr_t)p, n, w); }

// ------------------------------------------------------------------ arena
bool   in_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
size_t live_blocks() { return g_live_blocks; }
size_t live_bytes() { return g_live_bytes; }

void* arena_alloc(size_t n, size_t align, bool can_fail) {
    if (can_fail) {
        if (me) me->allocs++;
        if (fault_event(F_ALLOC)) return nullptr;
    }
    if (align < 16) align = 16;
    uintptr_t p = (g_bump + REDZONE + align - 1) & ~(uintptr_t)(align - 1);
    if (n > ARENA_SZ || p + n + REDZONE > ARENA + ARENA_SZ) return nullptr;
    g_bump = p + n;
    memset(sh_state + (p - ARENA), 1, n);
    memset((void*)p, 0xCD, n);
    Block b{ p, n, align, 1 };
    g_blocks.push(b);
    g_live_blocks++;
    g_live_bytes += n;
    return (void*)p;
}

static Block* find_block(uintptr_t p) {
    size_t lo = 0, hi = g_blocks.n;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (g_blocks[m].addr < p) lo = m + 1; else hi = m; }
    // zero-size blocks may share an address with nothing else (redzones), so equality is unique
    if (lo < g_blocks.n && g_blocks[lo].addr == p) return &g_blocks[lo];
    return nullptr;
}

void arena_free(void* vp, size_t expect, size_t align) {
    if (!vp) return;
    uintptr_t p = (uintptr_t)vp;
    Block*    b = find_block(p);
    if (!b) fail("bad-free", "free of a pointer that is not the start of a block");
    if (b->state != 1) fail("double-free", "block of %zu bytes freed twice", b->size);
    if (expect != (size_t)-1 && expect != b->size) fail("dealloc-size", "block of %zu bytes deallocated with size %zu", b->size, expect);
    (void)align;
    if (t_active > 0 && R.conc) { for (size_t i = 0; i < b->size; ++i) ; mem(p, b->size, true); }
    for (size_t i = 0; i < g_locks.v.n; ++i) {
        Lock& l = g_locks.v[i];
        if (l.addr >= p && l.addr < p + b->size && (l.writer >= 0 || l.nreaders)) fail("lock-destroyed", "memory of a held lock freed");
    }
    b->state = 2;
    memset(sh_state + (p - ARENA), 2, b->size);
    memset(vp, 0xDD, b->size);
    g_live_blocks--;
    g_live_bytes -= b->size;
}

// ------------------------------------------------------------------ objects
void obj_ctor(const void* p) {
    if (in_arena(p)) { for (size_t i = 0; i < 1; ++i) if (sh_state[(uintptr_t)p - ARENA] != 1) heap_fail((uintptr_t)p, 1, true); }
    bool    c;
    ObjEnt* e = g_objs.get((uintptr_t)p, c);
    if (e->live) fail("lifetime", "element constructed on top of a live element");
    e->live = 1;
    g_obj_live++;
}
void obj_dtor(const void* p) {
    ObjEnt* e = g_objs.find((uintptr_t)p);
    if (!e || !e->live) fail("lifetime", "destructor run on memory holding no live element (double destroy or never constructed)");
    e->live = 0;
    g_obj_live--;
}
void obj_alive(const void* p, const char* what) {
    ObjEnt* e = g_objs.find((uintptr_t)p);
    if (!e || !e->live) fail("lifetime", "%s of memory holding no live element", what);
}
size_t obj_count() { return g_obj_live; }

// ------------------------------------------------------------------ tagged (stateful) allocator
struct Tag { uintptr_t addr; int id; };
static AddrMap<Tag> g_tags;
void* tagged_alloc(int id, size_t n, size_t al) {
    void* p = arena_alloc(n, al, true);
    if (!p) throw std::bad_alloc();
    bool c; g_tags.get((uintptr_t)p, c)->id = id;
    return p;
}
void tagged_free(int id, void* p, size_t n) {
    Tag* t = g_tags.find((uintptr_t)p);
    if (!t) fail("allocator", "deallocate() of memory this allocator type never returned");
    if (t->id != id) fail("allocator", "memory obtained from allocator #%d returned to unequal allocator #%d", t->id, id);
    arena_free(p, n);
}

// ------------------------------------------------------------------ faults
void arm(int kind, int nth) {
    Thr* t = me;
    t->fk = kind; t->fn = nth; t->fired = false; t->allocs = 0;
    memset(t->fcount, 0, sizeof t->fcount);
    if (kind > 0 && kind < F_KINDS) g_fault_armed[kind]++;
}
void arm(const Op& op) { arm(op.fk, op.fn); }
void disarm() { if (me) me->fk = 0; }
bool fault_fired() { return me && me->fired; }
uint64_t alloc_events() { return me ? me->allocs : 0; }
bool fault_event(int kind) {
    Thr* t = me;
    if (!t || t->fk != kind) return false;
    if (++t->fcount[kind] != t->fn) return false;
    t->fired = true;
    g_fault_counts[kind]++;
    g_fault_total++;
    mix(R.hash, 0xfa000 + (uint64_t)kind);
    return true;
}

// ------------------------------------------------------------------ misc API
int      self() { return me ? me->id : 0; }
uint64_t now_seq() { return ++R.seq; }
bool     in_threads() { return R.conc; }
void     point() { if (R.conc && me && me->id) { int s = t_active; t_active = 1; sched_point(P_SYNC); t_active = s; } }
void     active_push() { t_active++; }
void     active_pop() { t_active--; }
Ignore::Ignore() : saved(t_active) { t_active = 0; }
Ignore::~Ignore() { t_active = saved; }
void trace(uint64_t x) { mix(R.hash, x); }
void trace_op(int tid, int code, int64_t r) { R.ops++; mix(R.hash, ((uint64_t)tid << 32) + (uint64_t)code); mix(R.hash, (uint64_t)r); mix(R.shash, ((uint64_t)tid << 32) + (uint64_t)code * 31 + (uint64_t)r); }
void count(const char* name, uint64_t n) { int s = t_active; t_active = 0; (*g_counts)[name] += n; t_active = s; }
void probe(const char* name) { int s = t_active; t_active = 0; (*g_counts)[std::string("probe:") + name] += 1; t_active = s; }
void set_sim_time(double s) { g_sim_time += s; }
int  held_locks(int tid) {
    int n = 0;
    for (size_t i = 0; i < g_locks.v.n; ++i) { if (g_locks.v[i].writer == tid) n++; n += g_locks.v[i].readers[tid]; }
    return n;
}

// ------------------------------------------------------------------ thread-local state
// The OS threads behind simulated threads are pooled, so a simulated thread's end runs the
// destructors its code registered and gives the next one pristine thread-local variables.
struct TlsDtor { void (*fn)(void*); void* obj; };
static thread_local TlsDtor t_dtors[32];
static thread_local int     t_ndtors = 0;
static const void* tls_img = nullptr; static size_t tls_filesz = 0, tls_memsz = 0, tls_align = 1;
static int tls_cb(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tls_img = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_filesz = i->dlpi_phdr[k].p_filesz; tls_memsz = i->dlpi_phdr[k].p_memsz; tls_align = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
        }
    return 1;   // first object = the executable
}
static void thread_end() {
    while (t_ndtors) { TlsDtor d = t_dtors[--t_ndtors]; t_active = 1; d.fn(d.obj); t_active = 0; }
    if (!tls_img) return;
    char* tp; __asm__("mov %%fs:0, %0" : "=r"(tp));
    char* base = tp - ((tls_memsz + tls_align - 1) & ~(tls_align - 1));
    Thr* m = me;
    memcpy(base, tls_img, tls_filesz);
    memset(base + tls_filesz, 0, tls_memsz - tls_filesz);
    me = m; t_active = 0;
}

// ------------------------------------------------------------------ threads
static void* thread_main(void* arg) {
    Thr* t = (Thr*)arg;
    me = t;
    for (;;) {
        fwait(&t->go);
        t_active = 0;
        g_body(t->id);
        t_active = 0;
        thread_end();
        t->st = T_DONE;
        // happens-before: everything this thread did precedes the join
        R.live_threads--;
        if (R.live_threads == 0) { R.current = 0; fwake(&g_main_go); }
        else {
            t->lstep++;
            int to = choose_forced(t);
            if (to < 0) {
                char b[1024]; b[0] = 0;
                describe_deadlock(b, sizeof b);
                fail("deadlock", "remaining threads blocked:%s", b);
            }
            transfer(t, to, false);
        }
    }
}

void run_threads(int n, const std::function<void(int)>& fn) {
    if (n > MAXT - 1) { fprintf(stderr, "too many threads\n"); _exit(2); }
    R.nthr = n;
    R.live_threads = n;
    R.phase++;
    // fresh race shadow for this concurrent phase
    size_t used = g_bump > ARENA ? g_bump - ARENA + 4096 : 4096;
    if (used > ARENA_SZ) used = ARENA_SZ;
    memset(sh_w, 0, used * 4); memset(sh_r, 0, used * 4);
    memset(dsh_w, 0, (data_hi - data_lo) * 4); memset(dsh_r, 0, (data_hi - data_lo) * 4);
    g_rvc.clear();
    VC z; memset(&z, 0, sizeof z); g_rvc.push(z);
    for (int i = 1; i <= n; ++i) {
        T[i].reset();
        T[i].st = T_READY;
        T[i].vc.c[i] = 1;
        T[i].relf = VC{};
    }
    for (int i = n + 1; i < MAXT; ++i) T[i].st = T_IDLE;
    for (size_t i = 0; i < g_locks.v.n; ++i) { memset(&g_locks.v[i].wvc, 0, sizeof(VC)); memset(&g_locks.v[i].rvc, 0, sizeof(VC)); }
    g_atoms.clear();
    if (R.strat == 1) {
        int perm[MAXT];
        for (int i = 1; i <= n; ++i) perm[i] = i;
        for (int i = n; i > 1; --i) { int j = 1 + (int)R.rng.below((uint64_t)i); int x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
        for (int i = 1; i <= n; ++i) T[perm[i]].prio = 100 + i;
    }
    R.stall_tid = 1 + (int)R.rng.below((uint64_t)n);
    g_body = fn;
    int saved = t_active;
    R.conc = true;
    int first = 1;
    if (R.cs->explicit_sched) {
        for (int k = 0; k < MAXT; ++k) (void)k;
        auto& L = g_explicit[0];
        if (T[0].cur < L.n && runnable(L[T[0].cur].target)) first = L[T[0].cur++].target;
        Switch s{ 0, R.phase, 1, first };
        g_rec.push(s);
    } else {
        first = R.strat == 1 ? pick_prio(-1) : pick_random(-1);
        if (first < 1) first = 1;
        Switch s{ 0, R.phase, 1, first };
        g_rec.push(s);
    }
    R.current = first;
    fwake(&T[first].go);
    fwait(&g_main_go);
    R.conc = false;
    t_active = saved;
    for (int i = 1; i <= n; ++i)
        if (held_locks(i)) fail("lock-leak", "thread %d finished while holding a lock", i);
}

// ------------------------------------------------------------------ run control
static void reset_run() {
    size_t used = g_bump > ARENA ? g_bump - ARENA + 4096 : 4096;
    if (used > ARENA_SZ) used = ARENA_SZ;
    memset(sh_state, 0, used);
    memset(sh_w, 0, used * 4);
    memset(sh_r, 0, used * 4);
    g_bump = ARENA + 64;
    g_blocks.clear(); g_live_blocks = g_live_bytes = 0;
    g_locks.clear(); g_atoms.clear(); g_objs.clear(); g_tags.clear(); g_obj_live = 0; g_rvc.clear();
    g_rec.clear(); g_notes.clear();
    for (int i = 0; i < MAXT; ++i) T[i].reset();
    T[0].vc.c[0] = 1;
    R.conc = false; R.nthr = 0; R.step = R.seq = 0; R.hash = 0x1234; R.shash = 0x77; R.pctstep = 0; R.phase = 0;
    R.switches = R.syncs = R.accesses = R.ops = 0;
    t_active = 0;
    g_clock_on = false; g_clock_ns = g_wall_ns = g_clock_jump = g_clock_tick = 0;
}

static void setup_strategy(const Case& c, int wpref) {
    R.rng = Rng(c.sched_seed * 0x9e3779b97f4a7c15ull + 12345);
    R.plain_mean = 0; R.nchg = 0; R.pct_plain = false; R.stall_for = 0; R.writer_pref = wpref;
    if (c.explicit_sched) {
        R.strat = 0;
        for (int i = 0; i < MAXT; ++i) g_explicit[i].clear();
        for (auto& s : c.sched) if (s.tid >= 0 && s.tid < MAXT) g_explicit[s.tid].push(s);
        return;
    }
    Rng& r = R.rng;
    R.writer_pref = (int)r.below(2);
    int s = c.strategy >= 0 ? c.strategy : (int)r.below(8);
    switch (s) {
    case 0: R.strat = 0; R.psync_num = 1; R.psync_den = 2; break;
    case 1: R.strat = 0; R.psync_num = 1; R.psync_den = 5; break;
    case 2: R.strat = 0; R.psync_num = 1; R.psync_den = 3; R.plain_mean = 10 + (int64_t)r.below(100); break;
    case 3: R.strat = 0; R.psync_num = 1; R.psync_den = 4; R.plain_mean = 100 + (int64_t)r.below(1000); break;
    case 4: case 5: {
        R.strat = 1; R.nchg = 1 + (int)r.below(4);
        uint64_t k = 1ull << (3 + r.below(5));
        for (int i = 0; i < R.nchg; ++i) R.chg[i] = 1 + r.below(k);
    } break;
    case 6: {
        R.strat = 1; R.pct_plain = true; R.nchg = 1 + (int)r.below(4);
        uint64_t k = 1ull << (6 + r.below(7));
        for (int i = 0; i < R.nchg; ++i) R.chg[i] = 1 + r.below(k);
    } break;
    default:
        R.strat = 2; R.stall_at = r.below(200); R.stall_for = 20 + r.below(400); break;
    }
    R.countdown = R.plain_mean ? 1 + (int64_t)r.below((uint64_t)(2 * R.plain_mean)) : 0;
}

static Harness* g_list = nullptr;
void register_harness(Harness* h) { h->next = g_list; g_list = h; }
static Harness* find_harness(const std::string& n) {
    for (Harness* h = g_list; h; h = h->next) if (n == h->name) return h;
    return nullptr;
}

static void execute(const Case& c, int wpref) {
    reset_run();
    R.cs = &c;
    setup_strategy(c, wpref);
    g_run_start = time(nullptr);
    me = &T[0];
    g_harness = find_harness(c.harness);
    g_harness->run(c);
    t_active = 0;
    thread_end();
    if (g_obj_live) fail("leak", "%zu element object(s) never destroyed", g_obj_live);
    if (g_live_blocks) {
        size_t sz = 0;
        for (size_t i = 0; i < g_blocks.n; ++i) if (g_blocks[i].state == 1) { sz = g_blocks[i].size; break; }
        fail("leak", "%zu heap block(s) (%zu bytes, first %zu bytes) never freed", g_live_blocks, g_live_bytes, sz);
    }
    g_run_start = 0;
    mix(R.hash, R.step);
}

static Case make_case(Harness* h, uint64_t seed) {
    Case c;
    c.harness = h->name;
    c.seed = seed;
    Rng r(seed * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull);
    c.sched_seed = r.next();
    h->gen(r, c);
    return c;
}

int sim_main(int argc, char** argv) {
    static std::map<std::string, uint64_t> counts;
    g_counts = &counts;
    dl_iterate_phdr(tls_cb, nullptr);
    std::string harness, replay, out, hashes, progress;
    uint64_t tries = 0;
    uint64_t seed0 = 1, stride = 1, maxruns = ~0ull;
    double   tlimit = 5;
    int      cpu = -1, twice = 0, gen = 0, forked = 0;
    std::vector<std::string> hs;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--harness") hs.push_back(nxt());
        else if (a == "--replay") replay = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--hashes") hashes = nxt();
        else if (a == "--seed0") seed0 = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--runs") maxruns = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--time") tlimit = atof(nxt().c_str());
        else if (a == "--cpu") cpu = atoi(nxt().c_str());
        else if (a == "--viol") g_viol_path = nxt();
        else if (a == "--twice") twice = 1;
        else if (a == "--gen") gen = 1;
        else if (a == "--fork") forked = 1;
        else if (a == "--tries") tries = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--progress") progress = nxt();
        else if (a == "--list") { for (Harness* h = g_list; h; h = h->next) printf("%s\n", h->name); return 0; }
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (cpu >= 0) {
        cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    // memory
    auto map = [](uintptr_t at, size_t n) {
        void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
        return p;
    };
    map(ARENA, ARENA_SZ);
    sh_state = (uint8_t*)map(0, ARENA_SZ);
    sh_w = (uint32_t*)map(0, ARENA_SZ * 4);
    sh_r = (uint32_t*)map(0, ARENA_SZ * 4);
    data_lo = (uintptr_t)__data_start; data_hi = (uintptr_t)_end;
    dsh_w = (uint32_t*)map(0, (data_hi - data_lo) * 4 + 4096);
    dsh_r = (uint32_t*)map(0, (data_hi - data_lo) * 4 + 4096);
    g_locks.init(1 << 12); g_atoms.init(1 << 14); g_objs.init(1 << 18); g_tags.init(1 << 14);
    g_bump = ARENA + ARENA_SZ - 8192;  // full clear first time is unnecessary: fresh mapping
    g_bump = ARENA + 64;
    T = new Thr[MAXT];
    for (int i = 0; i < MAXT; ++i) T[i].id = i;
    me = &T[0];
    // signals
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) sigaction(s, &sa, nullptr);
    struct sigaction sl{}; sl.sa_sigaction = on_signal; sl.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGALRM, &sl, nullptr);
    struct itimerval it{ { 2, 0 }, { 2, 0 } }; setitimer(ITIMER_REAL, &it, nullptr);
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM);
    pthread_sigmask(SIG_BLOCK, &m, nullptr);
    if (forked) {
        // every run in a process of its own: used when the code under test keeps state across runs
        std::vector<Harness*> H;
        for (auto& n : hs) { Harness* h = find_harness(n); if (!h) return 2; H.push_back(h); }
        struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
        int fd = progress.empty() ? -1 : open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        uint64_t n = 0, seed = seed0;
        for (; n < maxruns; seed += stride, ++n) {
            uint64_t pr[2] = { seed, (seed / stride) % H.size() };
            if (fd >= 0 && pwrite(fd, pr, 16, 0) != 16) return 2;
            pid_t p = fork();
            if (p < 0) return 2;
            if (p == 0) { forked = 2; seed0 = seed; maxruns = 1; tlimit = 1e9; out = "/dev/null"; hashes.clear(); progress.clear(); setitimer(ITIMER_REAL, &it, nullptr); break; }
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(9); }
            if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            if ((double)(t1.tv_sec - t0.tv_sec) > tlimit) { ++n; break; }
        }
        if (forked == 1) {
            FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
            fprintf(f, "{\"runs\":%llu,\"last_seed\":%llu,\"faults\":{},\"counts\":{},\"harness\":{}}\n", (unsigned long long)n, (unsigned long long)seed);
            fflush(nullptr);
            _exit(0);
        }
    }
    for (int i = 1; i < MAXT; ++i) {
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
        pthread_create(&T[i].th, &at, thread_main, &T[i]);
    }
    pthread_sigmask(SIG_UNBLOCK, &m, nullptr);

    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        Case c; int wp = 0;
        if (!f || !read_case(f, c, wp)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        fclose(f);
        if (!find_harness(c.harness)) { fprintf(stderr, "no harness %s\n", c.harness.c_str()); return 2; }
        if (tries) {  // re-search schedules for a (shrunk) case
            c.explicit_sched = false; c.sched.clear(); c.strategy = -1;
            for (uint64_t i = 1; i <= tries; ++i) { c.sched_seed = i * 7919; execute(c, 0); }
            printf("OK tries=%llu\n", (unsigned long long)tries);
            fflush(nullptr);
            _exit(0);
        }
        g_replaying = true;
        execute(c, wp);
        printf("OK hash=%016llx steps=%llu\n", (unsigned long long)R.hash, (unsigned long long)R.step);
        fflush(nullptr);
        _exit(0);
    }
    std::vector<Harness*> H;
    for (auto& n : hs) { Harness* h = find_harness(n); if (!h) { fprintf(stderr, "no harness %s\n", n.c_str()); return 2; } H.push_back(h); }
    if (H.empty()) { fprintf(stderr, "no harness\n"); return 2; }
    if (gen) { Case c = make_case(H[0], seed0); g_harness = H[0]; write_case(stdout, c, false); describe_case(stdout, c); return 0; }

    struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    uint64_t runs = 0, steps = 0, switches = 0, accesses = 0, syncs = 0, mismatches = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> perh;
    double el = 0;
    volatile uint64_t* prog = nullptr;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) { void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) prog = (uint64_t*)m; }
    }
    uint64_t nontrivial = 0;
    uint64_t seed = seed0, last = seed0, hashsum = 0;
    for (; runs < maxruns; seed += stride) {
        Harness* h = H[(seed / stride) % H.size()];
        Case c = make_case(h, seed);
        if (prog) { prog[0] = seed; prog[1] = (seed / stride) % H.size(); }
        uint64_t ft0 = g_fault_total;
        execute(c, 0);
        uint64_t hh = R.hash;
        hashsum = hashsum * 31 + hh;
        steps += R.step; switches += R.switches; accesses += R.accesses; syncs += R.syncs;
        bool nt = R.switches >= 3 || R.ops >= 3 || g_fault_total != ft0;
        nontrivial += nt;
        if (nt && distinct.size() < 3000000) distinct.insert(R.shash);
        if (twice) {
            execute(c, 0);
            if (R.hash != hh) { mismatches++; printf("NONDET seed=%llu %016llx %016llx\n", (unsigned long long)seed, (unsigned long long)hh, (unsigned long long)R.hash); }
        }
        runs++;
        perh[h->name]++;
        last = seed;
        if ((runs & 15) == 0) {
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9;
            if (el > tlimit) break;
        }
    }
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
    el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) * 1e-9;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"seed0\":%llu,\"stride\":%llu,\"last_seed\":%llu,\"elapsed\":%.3f,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"syncs\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"nondet\":%llu,\"hashsum\":\"%016llx\",\"sim_time\":%.6f",
            (unsigned long long)runs, (unsigned long long)seed0, (unsigned long long)stride, (unsigned long long)last, el, (unsigned long long)steps,
            (unsigned long long)switches, (unsigned long long)accesses, (unsigned long long)syncs, (unsigned long long)nontrivial, distinct.size(), (unsigned long long)mismatches, (unsigned long long)hashsum, g_sim_time);
    fprintf(f, ",\"harness\":{");
    bool first = true;
    for (auto& k : perh) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"faults\":{");
    first = true;
    for (int i = 1; i < F_KINDS; ++i)
        if (g_fault_armed[i] || g_fault_counts[i]) { fprintf(f, "%s\"%s\":{\"armed\":%llu,\"fired\":%llu}", first ? "" : ",", kFaultNames[i], (unsigned long long)g_fault_armed[i], (unsigned long long)g_fault_counts[i]); first = false; }
    fprintf(f, "},\"counts\":{");
    first = true;
    for (auto& k : counts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "}}\n");
    if (f != stdout) fclose(f);
    if (!hashes.empty()) {
        FILE* g = fopen(hashes.c_str(), "wb");
        for (uint64_t x : distinct) fwrite(&x, 8, 1, g);
        fclose(g);
    }
    fflush(nullptr);
    _exit(mismatches ? 5 : 0);
}

// ================================================================== locks
static Lock* lock_at(void* p) {
    bool  c;
    Lock* l = g_locks.get((uintptr_t)p, c);
    if (c) l->writer = -1;
    return l;
}
static inline void release_clock(Thr* t) { t->vc.c[t->id]++; }
static void sync_event(void* p, int k) {
    R.syncs++;
    uint64_t off = in_arena(p) ? (uintptr_t)p - ARENA : 1;  // addresses outside the arena may differ between processes
    mix(R.hash, ((uint64_t)(me->id) << 56) + ((uint64_t)k << 48) + off);
    mix(R.shash, ((uint64_t)(me->id) << 56) + ((uint64_t)k << 48) + off);
}
static void wlock(void* p, const char* what) {
    if (R.conc) sched_point(P_SYNC);
    mem((uintptr_t)p, 1, false);
    sync_event(p, 1);
    bool queued = false;
    for (;;) {
        Lock* l = lock_at(p);
        if (l->writer == me->id) fail("deadlock", "thread %d locks %s it already holds (self-deadlock)", me->id, what);
        if (l->readers[me->id]) fail("deadlock", "thread %d locks %s exclusively while holding it shared (self-deadlock)", me->id, what);
        if (l->writer < 0 && !l->nreaders) {
            l->writer = me->id;
            if (queued) l->wwait--;
            me->vc.join(l->wvc);
            me->vc.join(l->rvc);
            return;
        }
        if (!queued) { l->wwait++; queued = true; }
        block_on((uintptr_t)p, what);
        me->lstep++;
    }
}
static int try_wlock(void* p) {
    if (R.conc) sched_point(P_SYNC);
    mem((uintptr_t)p, 1, false);
    sync_event(p, 2);
    Lock* l = lock_at(p);
    if (l->writer == me->id || l->readers[me->id]) {
        // std::mutex::try_lock by the owner is undefined; report it
        fail("deadlock", "thread %d try-locks a lock it already holds", me->id);
    }
    if (l->writer < 0 && !l->nreaders) {
        l->writer = me->id;
        me->vc.join(l->wvc);
        me->vc.join(l->rvc);
        return 0;
    }
    if (R.conc) sched_point(P_YIELD);
    return EBUSY;
}
static void rlock(void* p, const char* what) {
    if (R.conc) sched_point(P_SYNC);
    mem((uintptr_t)p, 1, false);
    sync_event(p, 3);
    for (;;) {
        Lock* l = lock_at(p);
        if (l->writer == me->id) fail("deadlock", "thread %d locks %s shared while holding it exclusively (self-deadlock)", me->id, what);
        if (l->readers[me->id]) fail("deadlock", "thread %d acquires %s shared twice (undefined for std::shared_mutex; deadlocks when a writer waits)", me->id, what);
        if (l->writer < 0 && !(R.writer_pref && l->wwait)) {
            l->readers[me->id]++;
            l->nreaders++;
            me->vc.join(l->wvc);
            return;
        }
        block_on((uintptr_t)p, what);
        me->lstep++;
    }
}
static int try_rlock(void* p) {
    if (R.conc) sched_point(P_SYNC);
    sync_event(p, 4);
    Lock* l = lock_at(p);
    if (l->writer == me->id || l->readers[me->id]) fail("deadlock", "thread %d try-locks (shared) a lock it already holds", me->id);
    if (l->writer < 0) {
        l->readers[me->id]++;
        l->nreaders++;
        me->vc.join(l->wvc);
        return 0;
    }
    if (R.conc) sched_point(P_YIELD);
    return EBUSY;
}
static void unlock_any(void* p, const char* what) {
    mem((uintptr_t)p, 1, false);
    sync_event(p, 5);
    Lock* l = g_locks.find((uintptr_t)p);
    if (l && l->writer == me->id) {
        l->wvc = me->vc;
        l->writer = -1;
        release_clock(me);
    } else if (l && l->readers[me->id]) {
        l->readers[me->id]--;
        l->nreaders--;
        l->rvc.join(me->vc);
        release_clock(me);
    } else
        fail("bad-unlock", "thread %d unlocks %s it does not hold", me->id, what);
    wake_waiters((uintptr_t)p);
    if (R.conc) sched_point(P_SYNC);
}

// ================================================================== atomics
static Atom* atom_at(uintptr_t a, size_t n = 8) { bool c; Atom* t = g_atoms.get(a, c); t->size = n; return t; }
static bool  is_acq(int mo) { return mo == 2 || mo == 1 || mo == 4 || mo == 5; }
static bool  is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// kind: 0 load, 1 store, 2 rmw
static void atomic_pre(uintptr_t a, size_t n, int kind, int mo) {
    if (t_active <= 0) return;
    if (R.conc) sched_point(P_SYNC);
    R.syncs++;
    if (a - ARENA < ARENA_SZ) {
        for (size_t i = 0; i < n; ++i) if (sh_state[a + i - ARENA] != 1) heap_fail(a, n, kind != 0);
        mix(R.hash, ((uint64_t)me->id << 56) + ((uint64_t)(6 + kind) << 48) + (a - ARENA));
        mix(R.shash, ((uint64_t)me->id << 56) + ((uint64_t)(6 + kind) << 48) + (a - ARENA));
    }
    if (!R.conc) return;
    if (a - ARENA < ARENA_SZ) race_bytes(sh_w, sh_r, ARENA, a, n, kind != 0, true);
    else if (!(a >= data_lo && a + n <= data_hi)) return;
    Atom* at = atom_at(a, n);
    Thr*  t  = me;
    at->last[t->id] = t->vc.c[t->id];
    if (kind) at->lastw[t->id] = t->vc.c[t->id];
    if (kind != 1) {
        t->pend.join(at->rel);
        if (is_acq(mo)) t->vc.join(at->rel);
    }
    if (kind != 0) {
        const VC& pub = is_rel(mo) ? t->vc : t->relf;
        if (kind == 1) at->rel = pub; else at->rel.join(pub);
        if (is_rel(mo)) release_clock(t);
    }
}
static void fence(int mo) {
    if (t_active <= 0 || !R.conc) return;
    sched_point(P_SYNC);
    if (is_acq(mo)) me->vc.join(me->pend);
    if (is_rel(mo)) { me->relf = me->vc; release_clock(me); }
}
} // namespace sim

using namespace sim;
#define SIMULATED (t_active > 0 && me)

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!SIMULATED) return __real_pthread_mutex_lock(m); wlock(m, "mutex"); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!SIMULATED) return __real_pthread_mutex_trylock(m); return try_wlock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!SIMULATED) return __real_pthread_mutex_unlock(m); unlock_any(m, "mutex"); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!SIMULATED) return __real_pthread_rwlock_rdlock(m); rlock(m, "shared_mutex"); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!SIMULATED) return __real_pthread_rwlock_wrlock(m); wlock(m, "shared_mutex"); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!SIMULATED) return __real_pthread_rwlock_tryrdlock(m); return try_rlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!SIMULATED) return __real_pthread_rwlock_trywrlock(m); return try_wlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!SIMULATED) return __real_pthread_rwlock_unlock(m); unlock_any(m, "shared_mutex"); return 0; }
int __wrap_sched_yield() { if (!SIMULATED || !R.conc) return __real_sched_yield(); sched_point(P_YIELD); return 0; }

// function-local statics: bit 0 of the guard = initialised (Itanium ABI), we keep "in progress" in byte 1
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!SIMULATED) return __real___cxa_guard_acquire(g);
    for (;;) {
        if (R.conc) sched_point(P_SYNC);
        char* b = (char*)g;
        if (b[0]) { Atom* a = atom_at((uintptr_t)g); me->vc.join(a->rel); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (R.conc) sched_point(P_YIELD); else fail("deadlock", "recursive static initialisation");
    }
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!SIMULATED) { __real___cxa_guard_release(g); return; }
    char* b = (char*)g; b[1] = 0; b[0] = 1;
    Atom* a = atom_at((uintptr_t)g); a->rel.join(me->vc); me->vc.c[me->id]++;
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!SIMULATED) { __real___cxa_guard_abort(g); return; }
    ((char*)g)[1] = 0;
}

// ---- memory
void* __wrap_malloc(size_t n) { if (!SIMULATED) return __real_malloc(n); return arena_alloc(n, 16, true); }
void  __wrap_free(void* p) { if (in_arena(p)) arena_free(p, (size_t)-1); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!SIMULATED) return __real_calloc(a, b); void* p = arena_alloc(a * b, 16, true); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (!in_arena(p) && !(p == nullptr && SIMULATED)) return __real_realloc(p, n);
    void* q = arena_alloc(n, 16, true);
    if (!q) return nullptr;
    if (p) { Block* b = find_block((uintptr_t)p); size_t k = b ? b->size : 0; memcpy(q, p, k < n ? k : n); arena_free(p, (size_t)-1); }
    return q;
}

// ---- tsan interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                            \
    void __tsan_read##n(void* a) { acc((uintptr_t)a, n, false); }                        \
    void __tsan_write##n(void* a) { acc((uintptr_t)a, n, true); }                        \
    void __tsan_read_write##n(void* a) { acc((uintptr_t)a, n, true); }                   \
    void __tsan_unaligned_read##n(void* a) { acc((uintptr_t)a, n, false); }              \
    void __tsan_unaligned_write##n(void* a) { acc((uintptr_t)a, n, true); }              \
    void __tsan_unaligned_read_write##n(void* a) { acc((uintptr_t)a, n, true); }         \
    void __tsan_volatile_read##n(void* a) { acc((uintptr_t)a, n, false); }               \
    void __tsan_volatile_write##n(void* a) { acc((uintptr_t)a, n, true); }               \
    void __tsan_unaligned_volatile_read##n(void* a) { acc((uintptr_t)a, n, false); }     \
    void __tsan_unaligned_volatile_write##n(void* a) { acc((uintptr_t)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void*) { acc((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void** a) { acc((uintptr_t)a, 8, false); }
void __tsan_read_range(void* a, size_t n) { acc((uintptr_t)a, n, false); }
void __tsan_write_range(void* a, size_t n) { acc((uintptr_t)a, n, true); }
static void overlap_check(const void* d, const void* s, size_t n) {
    if (n && d != s && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n && t_active > 0)
        fail("memcpy-overlap", "memcpy with overlapping ranges (%zu bytes)", n);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) { overlap_check(d, s, n); acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((uintptr_t)s, n, false); acc((uintptr_t)d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc((uintptr_t)d, n, true); return memset(d, c, n); }
int   __wrap_memcmp(const void* a, const void* b, size_t n) { acc((uintptr_t)a, n, false); acc((uintptr_t)b, n, false); return memcmp(a, b, n); }

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long long a64; typedef unsigned __int128 a128;
#define ATOM(N)                                                                                                                     \
    a##N __tsan_atomic##N##_load(const volatile a##N* a, int mo) { atomic_pre((uintptr_t)a, N / 8, 0, mo); return *a; }            \
    void __tsan_atomic##N##_store(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 1, mo); *a = v; }            \
    a##N __tsan_atomic##N##_exchange(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = v; return o; } \
    a##N __tsan_atomic##N##_fetch_add(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)(o + v); return o; } \
    a##N __tsan_atomic##N##_fetch_sub(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)(o - v); return o; } \
    a##N __tsan_atomic##N##_fetch_and(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)(o & v); return o; } \
    a##N __tsan_atomic##N##_fetch_or(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)(o | v); return o; } \
    a##N __tsan_atomic##N##_fetch_xor(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)(o ^ v); return o; } \
    a##N __tsan_atomic##N##_fetch_nand(volatile a##N* a, a##N v, int mo) { atomic_pre((uintptr_t)a, N / 8, 2, mo); a##N o = *a; *a = (a##N)~(o & v); return o; } \
    a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N* a, a##N c, a##N v, int mo, int fmo) {                              \
        bool ok = false; if (SIMULATED && R.conc) sched_point(P_SYNC);                                                              \
        ok = *a == c; int s = t_active; bool cc = R.conc; (void)cc;                                                                 \
        atomic_pre_nopoint((uintptr_t)a, N / 8, ok ? 2 : 0, ok ? mo : fmo); t_active = s;                                           \
        a##N o = *a; if (ok) *a = v; return o; }                                                                                    \
    int __tsan_atomic##N##_compare_exchange_strong(volatile a##N* a, a##N* c, a##N v, int mo, int fmo) {                           \
        a##N o = __tsan_atomic##N##_compare_exchange_val(a, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; }            \
    int __tsan_atomic##N##_compare_exchange_weak(volatile a##N* a, a##N* c, a##N v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); }
static void atomic_pre_nopoint(uintptr_t a, size_t n, int kind, int mo) {
    if (t_active <= 0) return;
    R.syncs++;
    if (a - ARENA < ARENA_SZ)
        for (size_t i = 0; i < n; ++i) if (sh_state[a + i - ARENA] != 1) heap_fail(a, n, kind != 0);
    if (!R.conc) return;
    if (a - ARENA < ARENA_SZ) race_bytes(sh_w, sh_r, ARENA, a, n, kind != 0, true);
    else if (!(a >= data_lo && a + n <= data_hi)) return;
    Atom* at = atom_at(a, n); Thr* t = me;
    at->last[t->id] = t->vc.c[t->id];
    if (kind) at->lastw[t->id] = t->vc.c[t->id];
    t->pend.join(at->rel);
    if (is_acq(mo)) t->vc.join(at->rel);
    if (kind) { at->rel.join(is_rel(mo) ? t->vc : t->relf); if (is_rel(mo)) release_clock(t); }
}
ATOM(8) ATOM(16) ATOM(32) ATOM(64) ATOM(128)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- files and system information (only the memory queries use them)
// libstdc++'s file streams open with fopen: while a simulated kernel is attached they get its file
FILE* fopen(const char* n, const char* m) {
    if (g_mem_open) { int fd = g_mem_open(n); return fd < 0 ? nullptr : fdopen(fd, m); }
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    return real(n, m);
}
FILE* __wrap_fopen(const char* n, const char* m) { if (SIMULATED && g_fopen_hook) return g_fopen_hook(n, m); return fopen(n, m); }
int   __wrap_sysinfo(struct sysinfo* s) { if (SIMULATED && g_sysinfo_hook) return g_sysinfo_hook(s); return sysinfo(s); }

// ---- thread-local destructors
int __real_cxa_thread_atexit(void (*)(void*), void*, void*) __asm__("__cxa_thread_atexit");
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
    if (!SIMULATED) return __real_cxa_thread_atexit(fn, obj, dso);
    if (t_ndtors == 32) { fprintf(stderr, "too many thread-local destructors\n"); _exit(2); }
    t_dtors[t_ndtors++] = TlsDtor{ fn, obj };
    return 0;
}

// ---- clock
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (g_clock_on && t_active > 0) {
        if (fault_event(F_CLOCK)) g_wall_ns += g_clock_jump;    // the wall clock is stepped; monotonic clocks are not
        g_clock_ns += g_clock_tick;
        int64_t t = g_clock_ns + (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI ? g_wall_ns : 0);
        ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
}

// ---- operator new / delete
static void* do_new(size_t n, size_t al) {
    if (SIMULATED) {
        void* p = arena_alloc(n, al, true);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void do_del(void* p, size_t n) { if (in_arena(p)) arena_free(p, n); else free(p); }
void* operator new(size_t n) { return do_new(n, 16); }
void* operator new[](size_t n) { return do_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (SIMULATED) return arena_alloc(n, 16, true); return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (SIMULATED) return arena_alloc(n, 16, true); return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { do_del(p, (size_t)-1); }
void operator delete[](void* p) noexcept { do_del(p, (size_t)-1); }
void operator delete(void* p, size_t n) noexcept { do_del(p, n); }
void operator delete[](void* p, size_t n) noexcept { do_del(p, n); }
void operator delete(void* p, std::align_val_t) noexcept { do_del(p, (size_t)-1); }
void operator delete[](void* p, std::align_val_t) noexcept { do_del(p, (size_t)-1); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { do_del(p, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { do_del(p, n); }

int main(int argc, char** argv) { return sim::sim_main(argc, argv); }
