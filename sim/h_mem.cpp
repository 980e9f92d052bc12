// gtl's memory queries against a simulated kernel: /proc/self/status and sysinfo() with
// arbitrary contents, short reads, read errors, missing files and failing system calls.
#include "elem.h"
#include "gtl/meminfo.hpp"
#include <string>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace sim {
extern ssize_t (*g_mem_read)(int, void*, size_t);
}
using namespace sim;

namespace {
enum { Q_SYS, Q_USED, Q_PHYS, Q_PROC, Q_N };
const char* qname(int, int c) { static const char* n[] = { "GetSystemMemory", "GetTotalMemoryUsed", "GetPhysicalMemory", "GetProcessMemoryUsed" }; return c >= 0 && c < Q_N ? n[c] : "?"; }
struct World { struct sysinfo si; std::string status; size_t pos = 0; bool open = false; int opens = 0, failed = 0; bool partial_ok = false; } g;
ssize_t rd(void*, char* b, size_t n) {
    Ignore ig;
    if (fault_event(F_IO)) { g.failed++; errno = EIO; return -1; }
    size_t k = g.status.size() - g.pos; if (k > n) k = n;
    if (fault_event(F_SHORT) && k > 1) k = 1 + k / 3;
    memcpy(b, g.status.data() + g.pos, k); g.pos += k;
    return (ssize_t)k;
}
int cl(void*) { g.open = false; return 0; }
FILE* hook_open(const char* n, const char*) {
    Ignore ig;
    if (fault_event(F_CALL)) { g.failed++; errno = EMFILE; return nullptr; }
    if (strcmp(n, "/proc/self/status")) { errno = ENOENT; return nullptr; }
    g.pos = 0; g.open = true; g.opens++;
    cookie_io_functions_t f{}; f.read = rd; f.close = cl;
    return fopencookie(nullptr, "r", f);
}
int g_fd = -1;   // the last descriptor handed out
int hook_open_fd(const char* n) {
    Ignore ig;
    if (fault_event(F_CALL)) { g.failed++; errno = EMFILE; return -1; }
    if (strcmp(n, "/proc/self/status")) { errno = ENOENT; return -1; }
    g.opens++;
    g_fd = memfd_create("status", 0);
    if (g_fd < 0) { fprintf(stderr, "memfd_create failed\n"); _Exit(2); }
    (void)!syscall(SYS_write, g_fd, g.status.data(), g.status.size());
    lseek(g_fd, 0, SEEK_SET);
    return g_fd;
}
ssize_t hook_read(int fd, void* b, size_t n) {
    Ignore ig;
    if (fault_event(F_IO)) { g.failed++; errno = EIO; return -1; }
    if (fault_event(F_SHORT) && n > 1) n = n > 64 ? 64 : n / 2;
    return syscall(SYS_read, fd, b, n);
}
int hook_si(void* p) {
    Ignore ig;
    if (fault_event(F_CALL)) { g.failed++; memset(p, 0xa5, sizeof(struct sysinfo)); errno = EFAULT; return -1; }
    memcpy(p, &g.si, sizeof g.si); return 0;
}
void run(const Case& c) {
    g_fopen_hook = hook_open; g_sysinfo_hook = hook_si;
    for (auto& o : c.threads[0]) {
        Rng r((uint64_t)o.a);
        memset(&g.si, 0, sizeof g.si);
        g.si.mem_unit = r.chance(1, 2) ? 1 : 4096;
        uint64_t scale = g.si.mem_unit == 1 ? 1ull << r.below(45) : 1ull << r.below(33);
        g.si.totalram = r.below(scale) + 1; g.si.freeram = r.below(g.si.totalram + 1); g.si.totalswap = r.below(scale); g.si.freeswap = r.below(g.si.totalswap + 1);
        uint64_t kb = r.below(1ull << r.below(38));
        bool has = !r.chance(1, 8);
        std::string s = "Name:\tprog" + std::string((size_t)r.below(30), 'x') + "\nUmask:\t0022\nPid:\t12345\n";
        if (r.chance(1, 3)) { s += "Groups:\t"; for (uint64_t i = r.below(60); i-- > 0;) s += std::to_string(1000 + i) + " "; s += "\n"; }
        if (r.chance(1, 2)) s += "VmPeak:\t" + std::to_string(kb + 77) + " kB\n";
        if (has) { std::string n = std::to_string(kb); s += "VmSize:\t" + std::string(n.size() < 8 ? 8 - n.size() : 0, ' ') + n + " kB\n"; }
        s += "VmLck:\t       0 kB\nVmRSS:\t    4321 kB\nThreads:\t1\n";
        g.status = s; g.failed = 0; g.open = false;
        uint64_t got, want = 0;
        g_fd = -1; g_mem_open = hook_open_fd; g_mem_read = hook_read;
        arm(o);
        {
            Active a;
            switch (o.code) { case Q_SYS: got = gtl::GetSystemMemory(); break; case Q_USED: got = gtl::GetTotalMemoryUsed(); break; case Q_PHYS: got = gtl::GetPhysicalMemory(); break; default: got = gtl::GetProcessMemoryUsed(); }
        }
        disarm();
        g_mem_open = nullptr; g_mem_read = nullptr;
        if (g_fd >= 0 && fcntl(g_fd, F_GETFD) != -1) g.open = true;
        uint64_t u = g.si.mem_unit;
        switch (o.code) { case Q_SYS: want = (g.si.totalram + g.si.totalswap) * u; break; case Q_USED: want = (g.si.totalram - g.si.freeram + g.si.totalswap - g.si.freeswap) * u; break; case Q_PHYS: want = g.si.totalram * u; break; default: want = has ? kb * 1024 : 0; }
        if (g.open) fail("leak", "%s left the file open", qname(0, o.code));
        if (g.failed) { if (got != 0 && got != want) fail("model", "%s returned %llu although the system call failed", qname(0, o.code), (unsigned long long)got); }
        else if (got != want) fail("model", "%s returned %llu, should be %llu", qname(0, o.code), (unsigned long long)got, (unsigned long long)want);
        trace_op(0, o.code, (int64_t)got);
    }
    g_fopen_hook = nullptr; g_sysinfo_hook = nullptr;
}
void gen(Rng& r, Case& c) {
    c.threads.resize(1);
    int m = (int)r.range(1, 8);
    for (int i = 0; i < m; ++i) {
        Op o; o.code = r.chance(1, 2) ? Q_PROC : (int)r.below(Q_N); o.a = (int64_t)r.below(1ull << 40);
        if (r.chance(1, 3)) { int k = (int)r.below(3); o.fk = k == 0 ? F_CALL : k == 1 ? F_IO : F_SHORT; o.fn = 1 + (int)r.below(2); }
        c.threads[0].push_back(o);
    }
}
Harness h1{ "mem", gen, run, qname, nullptr };
Reg r1(&h1);
}
