// Stand-ins for the system calls the file and standard stream resources use: they do what the call does,
// in the way a fault schedule says (fewer bytes, EINTR, failure), and keep count.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <string>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

struct OsHook {
    bool on = false;                      // only while code under test runs
    std::set<int> fds;                    // descriptors the code under test opened
    bool std_fds = false;                 // also meddle with 0, 1, 2
    std::vector<long> plan;               // n > 0: at most n bytes; -4: EINTR; -5: EIO; 0: nothing special
    std::size_t at = 0;
    long moved_in = 0, moved_out = 0;
    bool err = false;
    bool open_fails = false;
    int bad_close = 0;                    // close of a descriptor that is not open
    long next() { return at < plan.size() ? plan[at++] : 0; }
    void arm(std::vector<long> p) { plan = std::move(p); at = 0; moved_in = moved_out = 0; err = false; on = true; }
    void disarm() { on = false; plan.clear(); at = 0; }
    bool mine(int fd) const { return on && (fds.count(fd) || (std_fds && fd >= 0 && fd <= 2)); }
};
inline OsHook& hook() { static OsHook h; return h; }

extern "C" {
ssize_t read(int fd, void* p, size_t n) {
    OsHook& h = hook();
    if (h.mine(fd)) {
        long k = h.next();
        if (k == -4) { errno = EINTR; return -1; }
        if (k == -5) { errno = EIO; h.err = true; return -1; }
        if (k > 0 && (size_t)k < n) n = (size_t)k;
        ssize_t r = syscall(SYS_read, fd, p, n);
        if (r > 0) h.moved_in += r;
        return r;
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
    OsHook& h = hook();
    if (h.mine(fd)) {
        long k = h.next();
        if (k == -4) { errno = EINTR; return -1; }
        if (k == -5) { errno = EIO; h.err = true; return -1; }
        if (k > 0 && (size_t)k < n) n = (size_t)k;
        ssize_t r = syscall(SYS_write, fd, p, n);
        if (r > 0) h.moved_out += r;
        return r;
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t pread(int fd, void* p, size_t n, off_t o) {
    OsHook& h = hook();
    if (h.mine(fd)) {
        long k = h.next();
        if (k == -4) { errno = EINTR; return -1; }
        if (k == -5) { errno = EIO; h.err = true; return -1; }
        if (k > 0 && (size_t)k < n) n = (size_t)k;
    }
    return syscall(SYS_pread64, fd, p, n, o);
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) {
    OsHook& h = hook();
    if (h.mine(fd)) {
        long k = h.next();
        if (k == -4) { errno = EINTR; return -1; }
        if (k == -5) { errno = EIO; h.err = true; return -1; }
        if (k > 0 && (size_t)k < n) n = (size_t)k;
    }
    return syscall(SYS_pwrite64, fd, p, n, o);
}
ssize_t pread64(int fd, void* p, size_t n, off64_t o) { return pread(fd, p, n, o); }
ssize_t pwrite64(int fd, const void* p, size_t n, off64_t o) { return pwrite(fd, p, n, o); }
// vectored calls may always come back short: one piece is one call
ssize_t readv(int fd, const struct iovec* v, int n) {
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int open(const char* path, int flags, ...) {
    OsHook& h = hook();
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (h.on && h.open_fails) { errno = EACCES; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
    if (h.on && fd >= 0) h.fds.insert(fd);
    return fd;
}
int open64(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    return open(path, flags, m);
}
int openat(int dir, const char* path, int flags, ...) {
    OsHook& h = hook();
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
    if (h.on && h.open_fails) { errno = EACCES; return -1; }
    int fd = (int)syscall(SYS_openat, dir, path, flags, m);
    if (h.on && fd >= 0) h.fds.insert(fd);
    return fd;
}
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    OsHook& h = hook();
    if (h.on && fd >= 0) {
        if (!h.fds.count(fd)) ++h.bad_close;      // not (or no longer) ours
        h.fds.erase(fd);
    }
    return (int)syscall(SYS_close, fd);
}
}
