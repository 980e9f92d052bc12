// The other ways to /proc/self/status: C++ file streams (libstdc++ opens with fopen, in rt.cpp, and
// reads with read) and plain descriptors.  While the simulated kernel is attached the file lives in
// an anonymous memory file, and each open and read is an event of the seeded fault plan.
#include "elem.h"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace sim {
ssize_t (*g_mem_read)(int, void*, size_t) = nullptr;
}
using namespace sim;
extern "C" {
NOINSTR FILE* fopen64(const char* n, const char* m) {
    if (g_mem_open) { int fd = g_mem_open(n); return fd < 0 ? nullptr : fdopen(fd, m); }
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    return real(n, m);
}
NOINSTR int open(const char* n, int fl, ...) {
    va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
    if (g_mem_open) return g_mem_open(n);
    return (int)syscall(SYS_openat, AT_FDCWD, n, fl, mode);
}
NOINSTR int open64(const char* n, int fl, ...) {
    va_list a; va_start(a, fl); int mode = va_arg(a, int); va_end(a);
    if (g_mem_open) return g_mem_open(n);
    return (int)syscall(SYS_openat, AT_FDCWD, n, fl, mode);
}
NOINSTR ssize_t read(int fd, void* p, size_t n) {
    if (g_mem_read) return g_mem_read(fd, p, n);
    return syscall(SYS_read, fd, p, n);
}
}
