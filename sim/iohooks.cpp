// File I/O seam: libstdc++'s fstreams reach the kernel through write/writev/read, which these
// definitions override.  While a simulated file is attached, each call is an event at which the
// seeded fault plan may inject an error, a short transfer, an interruption or a crash.
#include "io.h"
#include <cerrno>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim {
bool g_io_on = false, g_io_crashed = false;
uint64_t g_io_calls = 0;
}
using namespace sim;
extern "C" {
NOINSTR ssize_t write(int fd, const void* p, size_t n) {
    if (!g_io_on) return syscall(SYS_write, fd, p, n);
    Ignore ig;
    g_io_calls++;
    if (g_io_crashed) return (ssize_t)n;                       // the process is gone: nothing reaches the disk
    if (fault_event(F_CRASH)) { g_io_crashed = true; size_t k = n * 2 / 3; if (k) (void)!syscall(SYS_write, fd, p, k); return (ssize_t)n; }
    if (fault_event(F_EINTR)) { errno = EINTR; return -1; }
    if (fault_event(F_IO)) { errno = ENOSPC; return -1; }
    if (fault_event(F_SHORT) && n > 1) n /= 2;                 // short write: the rest must be retried
    return syscall(SYS_write, fd, p, n);
}
NOINSTR ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!g_io_on) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) {
        if (!v[i].iov_len) continue;
        ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return t ? t : k;
        t += k;
        if ((size_t)k < v[i].iov_len) break;
    }
    return t;
}
NOINSTR ssize_t read(int fd, void* p, size_t n) {
    if (!g_io_on) return syscall(SYS_read, fd, p, n);
    Ignore ig;
    g_io_calls++;
    if (fault_event(F_EINTR)) { errno = EINTR; return -1; }
    if (fault_event(F_IO)) { errno = EIO; return -1; }
    if (fault_event(F_SHORT) && n > 1) n = n > 64 ? 64 : n / 2;  // short read: the rest must be read again
    return syscall(SYS_read, fd, p, n);
}
}
