// Deterministic simulation runtime for gtl.
//
// Harness translation units are compiled with `clang++ -fsanitize=thread`, but linked
// against THIS runtime instead of libtsan: every load, store, atomic and memcpy the real
// gtl code performs calls into rt.cpp, which decides (from one seed) whether another
// simulated thread runs next, feeds a vector-clock race detector and checks the access
// against a shadow heap.  pthread mutexes / rwlocks, static-init guards, operator new,
// malloc, clocks and file I/O are wrapped the same way.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#define NOINSTR __attribute__((no_sanitize("thread"), noinline, disable_sanitizer_instrumentation))

namespace sim {

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t  range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool     chance(int num, int den) { return (int)below((uint64_t)den) < num; }
};

// ---------------------------------------------------------------- cases
enum FaultKind : int {
    F_NONE = 0,
    F_ALLOC,    // n-th allocation inside the operation fails with bad_alloc
    F_CTOR,     // n-th throwing element construction/copy/assignment throws
    F_CALL,     // user callback / memoized function throws at its n-th invocation
    F_IO,       // n-th archive/file call fails
    F_SHORT,    // n-th archive/file call is short
    F_CRASH,    // process stops at n-th archive/file call (only durable bytes survive)
    F_CLOCK,    // clock jumps at the n-th read
    F_CORRUPT,  // a stored byte is flipped / truncated
    F_EINTR,    // n-th file call is interrupted once (EINTR) and must be retried
    F_KINDS
};
const char* fault_name(int k);

struct Op {
    int     code = 0;
    int     fk   = 0;  // fault kind
    int     fn   = 0;  // fires on the fn-th (1-based) event of that kind within the op
    int64_t a = 0, b = 0, c = 0;
};

struct Switch { int tid; uint64_t lstep; int forced; int target; };

struct Case {
    std::string                   harness;
    int                           variant = 0;
    std::vector<int64_t>          params;
    std::vector<std::vector<Op>>  threads;
    uint64_t                      seed = 0;        // seed this case came from
    uint64_t                      sched_seed = 0;  // search mode
    int                           strategy = -1;
    bool                          explicit_sched = false;
    std::vector<Switch>           sched;
};

// ---------------------------------------------------------------- engine state
extern thread_local int t_active;   // >0: inside simulated code
void  active_push();
void  active_pop();

// Scope during which instrumentation, fault injection and the arena are live.
struct Active {
    NOINSTR Active() { active_push(); }
    NOINSTR ~Active() { active_pop(); }
};
// Scope (inside Active) in which harness bookkeeping runs un-simulated.
struct Ignore {
    int saved;
    NOINSTR Ignore();
    NOINSTR ~Ignore();
};

[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...) do { if (!(cond)) ::sim::fail(kind, __VA_ARGS__); } while (0)

// run fn(tid) for tid = 1..n as simulated threads; returns when all are done
void run_threads(int n, const std::function<void(int)>& fn);
int  self();              // 0 = main
uint64_t now_seq();       // global event number (monotone, deterministic)
void point();             // explicit scheduling point (user code yields / slow callback)
bool in_threads();

// faults for the current op on this thread
void arm(const Op& op);
void arm(int kind, int nth);
void disarm();
bool fault_fired();       // did the armed fault fire since arm()
bool fault_event(int kind);  // an event of this kind happens now; true => inject
uint64_t alloc_events();  // allocations counted since arm()
struct Injected { int kind; };  // exception thrown by injected faults (not ALLOC)

// arena introspection
size_t live_blocks();
size_t live_bytes();
bool   in_arena(const void* p);
void*  arena_alloc(size_t n, size_t align, bool can_fail);
void   arena_free(void* p, size_t expect_size /*(size_t)-1 = unknown*/, size_t align = 0);
void   check_range(const void* p, size_t n, bool write);   // heap validity + race check

// element registry: object lifetime
void obj_ctor(const void* p);
void obj_dtor(const void* p);
void obj_alive(const void* p, const char* what);
size_t obj_count();

// coverage
void     trace(uint64_t x);           // mix into the run's trace hash
void     trace_op(int tid, int code, int64_t r);
void     count(const char* name, uint64_t n = 1);   // named counter -> evidence
void     probe(const char* name);     // "reached" marker
void     note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to replay narration
void     set_sim_time(double seconds);

// locks introspection
int held_locks(int tid);

// simulated clock (wrapped clock_gettime)
extern int64_t g_clock_ns, g_wall_ns, g_clock_jump, g_clock_tick;   // monotonic time, wall-clock offset, size of an injected step, cost of a reading
extern bool    g_clock_on;

extern FILE* (*g_fopen_hook)(const char*, const char*);
extern int (*g_mem_open)(const char*);
extern int (*g_sysinfo_hook)(void*);

// harness registration
struct Harness {
    const char* name;
    void (*gen)(Rng&, Case&);
    void (*run)(const Case&);
    const char* (*opname)(int variant, int code);
    Harness* next;
};
void register_harness(Harness*);
struct Reg { Reg(Harness* h) { register_harness(h); } };

int sim_main(int argc, char** argv);
} // namespace sim
