// Observation of the system calls that modify files, with injection of crashes
// and errors. Include it in one source file only: it replaces functions of libc
#ifndef VH_FAULTS_H
#define VH_FAULTS_H
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace faults {

enum Kind
{
    CREATE,
    WRITE,
    TRUNC,
    SYNC,
    RENAME,
    UNLINK,
    MKDIR,
    RMDIR,
    LINK,
    TIMES,
};

inline const char* kind_name(Kind k)
{
    static const char* names[] = {"create", "write", "trunc", "sync", "rename", "unlink", "mkdir", "rmdir", "link", "times"};
    return names[k];
}

struct Event
{
    Kind kind;
    std::string path, dest;
    long long size = 0;
};

struct Control
{
    bool on = false;
    /// Only paths under this one are considered
    std::string root;
    /// Timestamps given to files when they are modified. 0 to leave the real ones
    long long clock = 0;
    /// One chance over this many events for the clock to move by a second
    unsigned tick  = 0;
    uint64_t state = 1;
    /// Number of events seen
    long n = 0;
    /// Log of the events
    std::vector<Event>* log = nullptr;
    /// Kill the process before this event
    long crash_at = -1;
    /// In case of a write, do half of it before
    bool crash_partial = false;
    /// Give an error instead of performing this event
    long fail_at = -1;
    /// In case of a write, do part of it, and give the error on the next one
    bool fail_short = false;
    /// All what needs space fails from there on
    bool fail_persistent = false;
    int fail_errno       = ENOSPC;
    /// Tells if a failure was actually injected
    bool failed        = false;
    std::string failed_what;
    bool short_pending = false;
    std::string short_path;
    /// Called before each event
    void (*hook)(const char* kind, const std::string& path, const std::string& dest) = nullptr;
    void (*after_rename)(const std::string& dest) = nullptr;

    unsigned rnd(unsigned n)
    {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        return (state >> 33) % n;
    }
};

inline Control& ctl()
{
    static Control c;
    return c;
}

struct Off
{
    bool old;
    Off() : old(ctl().on) { ctl().on = false; }
    ~Off() { ctl().on = old; }
};

inline std::string fd_path(int fd)
{
    char link[64], buf[4096];
    snprintf(link, 64, "/proc/self/fd/%d", fd);
    ssize_t r = syscall(SYS_readlink, link, buf, sizeof(buf));
    return r > 0 ? std::string(buf, r) : std::string();
}

inline std::string at_path(int dirfd, const char* path)
{
    if (path[0] == '/')
        return path;
    std::string base;
    if (dirfd == AT_FDCWD)
    {
        char buf[4096];
        base = getcwd(buf, sizeof(buf)) ? buf : "";
    }
    else
        base = fd_path(dirfd);
    return base + "/" + path;
}

inline bool interesting(const std::string& p)
{
    auto& c = ctl();
    return c.on && p.compare(0, c.root.size(), c.root) == 0;
}

enum Action
{
    GO,
    FAIL,
    SHORT,
    CRASH_PARTIAL,
};

inline Action event(Kind kind, const std::string& path, const std::string& dest = "", long long size = 0)
{
    auto& c = ctl();
    if (c.hook)
        c.hook(kind_name(kind), path, dest);
    long k = c.n++;
    static bool trace = getenv("VH_EVENTS");
    if (trace)
        fprintf(stderr, "++ %ld %lld %s %s %s %lld\n", k, c.clock, kind_name(kind), path.c_str() + c.root.size(), dest.c_str(), size);
    if (c.log)
        c.log->push_back({kind, path, dest, size});
    if (c.tick && c.rnd(c.tick) == 0)
        ++c.clock;
    if (k == c.crash_at)
    {
        if (c.crash_partial && kind == WRITE && size > 1)
            return CRASH_PARTIAL;
        _exit(77);
    }
    bool space = kind == CREATE || kind == WRITE || kind == MKDIR;
    bool fail  = false;
    if (c.short_pending && kind == WRITE && path == c.short_path)
    {
        c.short_pending = false;
        fail            = true;
    }
    if (c.fail_at >= 0 && k >= c.fail_at && c.fail_persistent && space)
        fail = true;
    if (k == c.fail_at && !c.fail_persistent)
        fail = true;
    if (fail)
    {
        if (c.fail_short && kind == WRITE && size > 8 && !c.failed)
        {
            c.failed        = true;
            c.failed_what   = std::string("short ") + kind_name(kind) + " " + path;
            c.short_pending = true;
            c.short_path    = path;
            return SHORT;
        }
        if (!c.failed)
        {
            c.failed      = true;
            c.failed_what = std::string(kind_name(kind)) + " " + path;
        }
        return FAIL;
    }
    return GO;
}

inline int error()
{
    errno = ctl().fail_errno;
    return -1;
}

inline void stamp(int fd)
{
    auto& c = ctl();
    if (!c.clock)
        return;
    struct timespec ts[2] = {{c.clock, 0}, {c.clock, 0}};
    int e                 = errno;
    syscall(SYS_utimensat, fd, nullptr, ts, 0);
    errno = e;
}

inline int do_open(int dirfd, const char* path, int flags, mode_t mode)
{
    if (ctl().on && (flags & (O_CREAT | O_TRUNC)) && (flags & O_TMPFILE) != O_TMPFILE)
    {
        std::string p = at_path(dirfd, path);
        if (interesting(p))
        {
            struct stat st;
            bool exists  = syscall(SYS_newfstatat, dirfd, path, &st, 0) == 0;
            bool created = (flags & O_CREAT) && !exists;
            bool trunc   = (flags & O_TRUNC) && exists && st.st_size > 0;
            if (created || trunc)
            {
                if (event(created ? CREATE : TRUNC, p) == FAIL)
                    return error();
                int fd = syscall(SYS_openat, dirfd, path, flags, mode);
                if (fd >= 0)
                    stamp(fd);
                return fd;
            }
        }
    }
    return syscall(SYS_openat, dirfd, path, flags, mode);
}

inline ssize_t do_write(int fd, size_t size, std::function<ssize_t(size_t)> f)
{
    if (ctl().on)
    {
        std::string p = fd_path(fd);
        if (interesting(p))
        {
            ssize_t r;
            switch (event(WRITE, p, "", size))
            {
                case FAIL: return error();
                case SHORT: r = f(size / 2); break;
                case CRASH_PARTIAL: f(size / 2); stamp(fd); _exit(77);
                default: r = f(size);
            }
            stamp(fd);
            return r;
        }
    }
    return f(size);
}

inline int do_at(Kind kind, int dirfd, const char* path, std::function<int()> f)
{
    if (ctl().on)
    {
        std::string p = at_path(dirfd, path);
        struct stat st;
        if (interesting(p) && (kind == MKDIR || syscall(SYS_newfstatat, dirfd, path, &st, AT_SYMLINK_NOFOLLOW) == 0) &&
            event(kind, p) == FAIL)
            return error();
    }
    return f();
}

inline int do_rename(int d1, const char* p1, int d2, const char* p2, Kind kind, std::function<int()> f)
{
    if (ctl().on)
    {
        std::string b = at_path(d2, p2);
        if (interesting(b))
        {
            if (event(kind, at_path(d1, p1), b) == FAIL)
                return error();
            int r = f();
            if (r == 0 && ctl().after_rename)
                ctl().after_rename(b);
            return r;
        }
    }
    return f();
}

inline int do_fd(Kind kind, int fd, std::function<int()> f, bool mark = false, long long size = 0)
{
    if (ctl().on)
    {
        std::string p = fd_path(fd);
        if (interesting(p))
        {
            if (event(kind, p, "", size) == FAIL)
                return error();
            int r = f();
            if (mark && r == 0)
                stamp(fd);
            return r;
        }
    }
    return f();
}

inline std::vector<struct iovec> cut(const struct iovec* iov, int cnt, size_t size)
{
    std::vector<struct iovec> res;
    for (int i = 0; i < cnt && size; ++i)
    {
        auto v = iov[i];
        if (v.iov_len > size)
            v.iov_len = size;
        size -= v.iov_len;
        res.push_back(v);
    }
    return res;
}

inline size_t total(const struct iovec* iov, int cnt)
{
    size_t res = 0;
    for (int i = 0; i < cnt; ++i)
        res += iov[i].iov_len;
    return res;
}

} // namespace faults

#define VH_MODE()                              \
    mode_t mode = 0;                           \
    if (flags & (O_CREAT | O_TMPFILE))         \
    {                                          \
        va_list ap;                            \
        va_start(ap, flags);                   \
        mode = va_arg(ap, mode_t);             \
        va_end(ap);                            \
    }

#undef open64
#undef openat64
#undef creat64
extern "C" {
#define VHN(name) __attribute__((used, visibility("default"))) name
int vh_open(const char*, int, ...) __asm__("open");
int vh_open64(const char*, int, ...) __asm__("open64");
int vh_openat(int, const char*, int, ...) __asm__("openat");
int vh_openat64(int, const char*, int, ...) __asm__("openat64");
int VHN(vh_open)(const char* path, int flags, ...) { VH_MODE() return faults::do_open(AT_FDCWD, path, flags, mode); }
int VHN(vh_open64)(const char* path, int flags, ...) { VH_MODE() return faults::do_open(AT_FDCWD, path, flags, mode); }
int VHN(vh_openat)(int d, const char* path, int flags, ...) { VH_MODE() return faults::do_open(d, path, flags, mode); }
int VHN(vh_openat64)(int d, const char* path, int flags, ...) { VH_MODE() return faults::do_open(d, path, flags, mode); }
int vh_creat(const char*, mode_t) __asm__("creat");
int vh_creat64(const char*, mode_t) __asm__("creat64");
int VHN(vh_creat)(const char* path, mode_t mode) { return faults::do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int VHN(vh_creat64)(const char* path, mode_t mode) { return faults::do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t vh_write(int, const void*, size_t) __asm__("write");
ssize_t VHN(vh_write)(int fd, const void* buf, size_t n)
{
    return faults::do_write(fd, n, [=](size_t k) { return syscall(SYS_write, fd, buf, k); });
}
ssize_t vh_pwrite(int, const void*, size_t, long) __asm__("pwrite");
ssize_t vh_pwrite64(int, const void*, size_t, long) __asm__("pwrite64");
ssize_t VHN(vh_pwrite)(int fd, const void* buf, size_t n, long o)
{
    return faults::do_write(fd, n, [=](size_t k) { return syscall(SYS_pwrite64, fd, buf, k, o); });
}
ssize_t VHN(vh_pwrite64)(int fd, const void* buf, size_t n, long o) { return vh_pwrite(fd, buf, n, o); }
ssize_t vh_writev(int, const struct iovec*, int) __asm__("writev");
ssize_t VHN(vh_writev)(int fd, const struct iovec* iov, int cnt)
{
    return faults::do_write(fd, faults::total(iov, cnt), [=](size_t k) {
        auto v = faults::cut(iov, cnt, k);
        return syscall(SYS_writev, fd, v.data(), v.size());
    });
}
ssize_t vh_pwritev(int, const struct iovec*, int, long) __asm__("pwritev");
ssize_t vh_pwritev64(int, const struct iovec*, int, long) __asm__("pwritev64");
ssize_t VHN(vh_pwritev)(int fd, const struct iovec* iov, int cnt, long o)
{
    return faults::do_write(fd, faults::total(iov, cnt), [=](size_t k) {
        auto v = faults::cut(iov, cnt, k);
        return syscall(SYS_pwritev, fd, v.data(), v.size(), o, o >> 32 >> 32);
    });
}
ssize_t VHN(vh_pwritev64)(int fd, const struct iovec* iov, int cnt, long o) { return vh_pwritev(fd, iov, cnt, o); }
ssize_t vh_sendfile(int, int, long*, size_t) __asm__("sendfile");
ssize_t vh_sendfile64(int, int, long*, size_t) __asm__("sendfile64");
ssize_t VHN(vh_sendfile)(int out, int in, long* o, size_t n)
{
    return faults::do_write(out, n, [=](size_t k) { return syscall(SYS_sendfile, out, in, o, k); });
}
ssize_t VHN(vh_sendfile64)(int out, int in, long* o, size_t n) { return vh_sendfile(out, in, o, n); }
ssize_t vh_cfr(int, long*, int, long*, size_t, unsigned) __asm__("copy_file_range");
ssize_t VHN(vh_cfr)(int in, long* oi, int out, long* oo, size_t n, unsigned fl)
{
    return faults::do_write(out, n, [=](size_t k) { return syscall(SYS_copy_file_range, in, oi, out, oo, k, fl); });
}

int vh_ftruncate(int, long) __asm__("ftruncate");
int vh_ftruncate64(int, long) __asm__("ftruncate64");
int VHN(vh_ftruncate)(int fd, long n)
{
    return faults::do_fd(faults::TRUNC, fd, [=] { return syscall(SYS_ftruncate, fd, n); }, true, n);
}
int VHN(vh_ftruncate64)(int fd, long n) { return vh_ftruncate(fd, n); }
int vh_truncate(const char*, long) __asm__("truncate");
int vh_truncate64(const char*, long) __asm__("truncate64");
int VHN(vh_truncate)(const char* p, long n)
{
    return faults::do_at(faults::TRUNC, AT_FDCWD, p, [=] { return syscall(SYS_truncate, p, n); });
}
int VHN(vh_truncate64)(const char* p, long n) { return vh_truncate(p, n); }

int vh_rename(const char*, const char*) __asm__("rename");
int VHN(vh_rename)(const char* a, const char* b)
{
    return faults::do_rename(AT_FDCWD, a, AT_FDCWD, b, faults::RENAME, [=] { return syscall(SYS_rename, a, b); });
}
int vh_renameat(int, const char*, int, const char*) __asm__("renameat");
int VHN(vh_renameat)(int d, const char* a, int e, const char* b)
{
    return faults::do_rename(d, a, e, b, faults::RENAME, [=] { return syscall(SYS_renameat, d, a, e, b); });
}
int vh_renameat2(int, const char*, int, const char*, unsigned) __asm__("renameat2");
int VHN(vh_renameat2)(int d, const char* a, int e, const char* b, unsigned f)
{
    return faults::do_rename(d, a, e, b, faults::RENAME, [=] { return syscall(SYS_renameat2, d, a, e, b, f); });
}
int vh_link(const char*, const char*) __asm__("link");
int VHN(vh_link)(const char* a, const char* b)
{
    return faults::do_rename(AT_FDCWD, a, AT_FDCWD, b, faults::LINK, [=] { return syscall(SYS_link, a, b); });
}
int vh_linkat(int, const char*, int, const char*, int) __asm__("linkat");
int VHN(vh_linkat)(int d, const char* a, int e, const char* b, int f)
{
    return faults::do_rename(d, a, e, b, faults::LINK, [=] { return syscall(SYS_linkat, d, a, e, b, f); });
}
int vh_unlink(const char*) __asm__("unlink");
int VHN(vh_unlink)(const char* p)
{
    return faults::do_at(faults::UNLINK, AT_FDCWD, p, [=] { return syscall(SYS_unlink, p); });
}
int vh_unlinkat(int, const char*, int) __asm__("unlinkat");
int VHN(vh_unlinkat)(int d, const char* p, int f)
{
    return faults::do_at(f & AT_REMOVEDIR ? faults::RMDIR : faults::UNLINK, d, p, [=] { return syscall(SYS_unlinkat, d, p, f); });
}
int vh_rmdir(const char*) __asm__("rmdir");
int VHN(vh_rmdir)(const char* p)
{
    return faults::do_at(faults::RMDIR, AT_FDCWD, p, [=] { return syscall(SYS_rmdir, p); });
}
int vh_remove(const char*) __asm__("remove");
int VHN(vh_remove)(const char* p)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) != 0)
        return -1;
    return S_ISDIR(st.st_mode) ? vh_rmdir(p) : vh_unlink(p);
}
int vh_mkdir(const char*, mode_t) __asm__("mkdir");
int VHN(vh_mkdir)(const char* p, mode_t m)
{
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0)
    {
        errno = EEXIST;
        return -1;
    }
    return faults::do_at(faults::MKDIR, AT_FDCWD, p, [=] { return syscall(SYS_mkdir, p, m); });
}
int vh_fsync(int) __asm__("fsync");
int VHN(vh_fsync)(int fd)
{
    return faults::do_fd(faults::SYNC, fd, [=] { return 0; });
}
int vh_fdatasync(int) __asm__("fdatasync");
int VHN(vh_fdatasync)(int fd)
{
    return faults::do_fd(faults::SYNC, fd, [=] { return 0; });
}
int vh_fallocate(int, int, long, long) __asm__("fallocate");
int vh_fallocate64(int, int, long, long) __asm__("fallocate64");
int VHN(vh_fallocate)(int fd, int m, long o, long n)
{
    return faults::do_fd(faults::TRUNC, fd, [=] { return syscall(SYS_fallocate, fd, m, o, n); }, true, n);
}
int VHN(vh_fallocate64)(int fd, int m, long o, long n) { return vh_fallocate(fd, m, o, n); }
int vh_futimens(int, const struct timespec*) __asm__("futimens");
int VHN(vh_futimens)(int fd, const struct timespec* ts)
{
    return faults::do_fd(faults::TIMES, fd, [=] {
        if (!ts && faults::ctl().clock)
        {
            faults::stamp(fd);
            return 0l;
        }
        return syscall(SYS_utimensat, fd, nullptr, ts, 0);
    });
}
int vh_utimensat(int, const char*, const struct timespec*, int) __asm__("utimensat");
int VHN(vh_utimensat)(int d, const char* p, const struct timespec* ts, int f)
{
    return faults::do_at(faults::TIMES, d, p, [=] {
        struct timespec now[2] = {{faults::ctl().clock, 0}, {faults::ctl().clock, 0}};
        return syscall(SYS_utimensat, d, p, !ts && faults::ctl().on && faults::ctl().clock ? now : ts, f);
    });
}
struct utimbuf;
int vh_utime(const char*, const long*) __asm__("utime");
int VHN(vh_utime)(const char* p, const long* t)
{
    return faults::do_at(faults::TIMES, AT_FDCWD, p, [=] {
        long long now         = faults::ctl().clock ? faults::ctl().clock : ::time(nullptr);
        struct timespec ts[2] = {{t ? t[0] : now, 0}, {t ? t[1] : now, 0}};
        return syscall(SYS_utimensat, AT_FDCWD, p, ts, 0);
    });
}
int vh_mkstemp(char*) __asm__("mkstemp");
int vh_mkstemp64(char*) __asm__("mkstemp64");
int VHN(vh_mkstemp)(char* t)
{
    static unsigned seq = 0;
    char* x             = t + strlen(t) - 6;
    for (int i = 0; i < 1000; ++i)
    {
        char b[8];
        snprintf(b, 8, "%06x", (unsigned)(getpid() * 7919 + seq++) & 0xffffff);
        memcpy(x, b, 6);
        int fd = faults::do_open(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST)
            return fd;
    }
    return -1;
}
int VHN(vh_mkstemp64)(char* t) { return vh_mkstemp(t); }
}
#endif
