#include "io_shim.hh"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <climits>
#include <cstdlib>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
std::string g_root;
std::atomic<bool> g_on{ false };
std::atomic<long> g_count{ 0 }, g_hits{ 0 }, g_makes{ 0 };
io::Kind g_kind = io::Kind::None;
long g_at = -1, g_len = 1;
int g_err = 0, g_nprocs = 0;
constexpr int MAXFD = 65536;
std::atomic<bool> g_fd[MAXFD];
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
std::vector<io::Op>* g_log = nullptr;

template<typename F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) static auto real_##name = real<decltype(&name)>(#name)

bool below(const char* p)
{
    if (!g_on || !p) return false;
    if (p[0] != '/') {
        // relative paths: as seen from the current directory
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return false;
        std::string s = std::string(cwd) + "/" + p;
        return s.compare(0, g_root.size(), g_root) == 0;
    }
    return strncmp(p, g_root.c_str(), g_root.size()) == 0;
}
bool fd_on(int fd) { return g_on && fd >= 0 && fd < MAXFD && g_fd[fd]; }
void mark(int fd, bool on) { if (fd >= 0 && fd < MAXFD) g_fd[fd] = on; }

// returns true if the operation is to fail (errno set)
enum class Do { Go, Fail, Torn, Short };
Do op(const char* what, const char* path)
{
    if (io::on_op) io::on_op();
    const long n = ++g_count;
    while (g_lock.test_and_set()) usleep(1);
    if (io::logging && g_log && g_log->size() < 100000) g_log->push_back({ what, path ? path : "" });
    g_lock.clear();
    const bool hit = g_kind != io::Kind::None && n >= g_at && (g_len < 0 || n < g_at + g_len);
    if (!hit) return Do::Go;
    switch (g_kind) {
        case io::Kind::Crash: _exit(77);
        case io::Kind::Torn: return Do::Torn;
        case io::Kind::Short: return Do::Short;
        case io::Kind::Fail: ++g_hits; if (strcmp(what, "unlink")) ++g_makes; errno = g_err; return Do::Fail;
        default: return Do::Go;
    }
}
void torn_exit() { _exit(77); }

std::atomic<bool> g_trace{ false };
std::vector<io::Op>* g_touched = nullptr;
std::string of_fd(int fd)
{
    char link[64], to[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, to, sizeof to);
    return n < 0 ? "" : std::string(to, n);
}
// the real path of a directory entry (the entry itself is not followed)
std::string entry(int dfd, const char* p)
{
    std::string s = p ? p : "";
    if (s.empty()) return s;
    if (s[0] != '/') {
        char cwd[PATH_MAX];
        s = (dfd == AT_FDCWD ? std::string(getcwd(cwd, sizeof cwd) ? cwd : "") : of_fd(dfd)) + "/" + s;
    }
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    const auto cut = s.rfind('/');
    char to[PATH_MAX];
    if (!realpath(cut ? s.substr(0, cut).c_str() : "/", to)) return s;
    return std::string(to) + "/" + s.substr(cut + 1);
}
void touch(const char* what, const std::string& path)
{
    if (!g_trace) return;
    const int e = errno;
    while (g_lock.test_and_set()) usleep(1);
    if (g_touched->size() < 200000) g_touched->push_back({ what, path });
    g_lock.clear();
    errno = e;
}
// if g_trace: the path must be worked out before the entry changes
#define ENTRY(dfd, p) (g_trace ? entry(dfd, p) : std::string())
bool there(const char* p) { struct stat s; return ::lstat(p, &s) == 0; }
void wrote(int fd, const char* what = "write")
{
    if (!g_trace) return;
    const int e = errno;
    struct stat s;
    if (!fstat(fd, &s) && S_ISREG(s.st_mode)) touch(what, of_fd(fd));
    errno = e;
}
// opened for writing
void opened(int fd, int flags, bool existed)
{
    if (!g_trace || fd < 0) return;
    if ((flags & O_CREAT) && !existed) wrote(fd, "create");
    if (flags & O_TRUNC) wrote(fd, "truncate");
}
} // namespace

namespace io {
void (*on_op)() = nullptr;
bool logging = true;
void watch(const std::string& root)
{
    g_root = root; g_count = 0; g_hits = 0;
    if (!g_log) g_log = new std::vector<Op>();
    g_log->clear();
    g_on = true;
}
void unwatch() { g_on = false; }
void rewatch() { g_on = true; }
void plan(Kind kind, long at, int err, long len) { g_kind = kind; g_at = at; g_err = err; g_len = len; }
long count() { return g_count; }
long hits() { return g_hits; }
long makes() { return g_makes; }
std::vector<Op> log() { return g_log ? *g_log : std::vector<Op>{}; }
void nprocs(int n) { g_nprocs = n; }
void trace(bool on)
{
    if (!g_touched) g_touched = new std::vector<Op>();
    g_trace = on;
}
std::vector<Op> touched() { return g_touched ? *g_touched : std::vector<Op>{}; }
}

extern "C" {
int get_nprocs(void) noexcept
{
    REAL(get_nprocs);
    return g_nprocs > 0 ? g_nprocs : real_get_nprocs();
}
static int do_open(int (*f)(const char*, int, ...), const char* p, int flags, mode_t mode)
{
    const bool w = (flags & (O_WRONLY | O_RDWR | O_CREAT)) != 0 && below(p);
    if (w) {
        auto d = op("open", p);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) torn_exit();
    }
    const bool existed = g_trace && there(p);
    int fd = f(p, flags, mode);
    if (fd >= 0) mark(fd, w);
    opened(fd, flags, existed);
    return fd;
}
int open(const char* p, int flags, ...)
{
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    REAL(open);
    return do_open(real_open, p, flags, m);
}
int open64(const char* p, int flags, ...)
{
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    REAL(open64);
    return do_open(real_open64, p, flags, m);
}
static FILE* do_fopen(FILE* (*f)(const char*, const char*), const char* p, const char* mode)
{
    const bool w = strpbrk(mode, "wa+") && below(p);
    if (w) {
        auto d = op("open", p);
        if (d == Do::Fail) return nullptr;
        if (d == Do::Torn) torn_exit();
    }
    const bool existed = g_trace && there(p);
    FILE* fp = f(p, mode);
    if (fp) mark(fileno(fp), w);
    if (fp && strpbrk(mode, "wa+"))
        opened(fileno(fp), (mode[0] == 'r' ? 0 : O_CREAT) | (mode[0] == 'w' ? O_TRUNC : 0), existed);
    return fp;
}
FILE* fopen(const char* p, const char* mode) { REAL(fopen); return do_fopen(real_fopen, p, mode); }
FILE* fopen64(const char* p, const char* mode) { REAL(fopen64); return do_fopen(real_fopen64, p, mode); }
int close(int fd) { REAL(close); mark(fd, false); return real_close(fd); }
int fclose(FILE* fp) { REAL(fclose); mark(fileno(fp), false); return real_fclose(fp); }
ssize_t write(int fd, const void* b, size_t n)
{
    REAL(write);
    if (fd_on(fd)) {
        auto d = op("write", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) { (void)!real_write(fd, b, n / 2); torn_exit(); }
        if (d == Do::Short && n > 1) n = (n + 1) / 2;
    }
    wrote(fd);
    return real_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int k)
{
    REAL(writev); REAL(write);
    if (fd_on(fd)) {
        auto d = op("write", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) { if (k > 0) (void)!real_write(fd, v[0].iov_base, v[0].iov_len / 2); torn_exit(); }
        if (d == Do::Short && k > 0 && v[0].iov_len > 1) return real_write(fd, v[0].iov_base, (v[0].iov_len + 1) / 2);
        if (d == Do::Short && k > 1) return real_writev(fd, v, k - 1);
    }
    wrote(fd);
    return real_writev(fd, v, k);
}
static ssize_t do_pwritev(ssize_t (*f)(int, const struct iovec*, int, off_t), int fd, const struct iovec* v, int k, off_t off)
{
    if (fd_on(fd)) {
        auto d = op("write", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) { if (k > 0) f(fd, v, 1, off); torn_exit(); }
        if (d == Do::Short && k > 0) {
            struct iovec h = v[0];
            h.iov_len = h.iov_len > 1 ? (h.iov_len + 1) / 2 : h.iov_len;
            return f(fd, &h, 1, off);
        }
    }
    wrote(fd);
    return f(fd, v, k, off);
}
ssize_t pwritev(int fd, const struct iovec* v, int k, off_t off) { REAL(pwritev); return do_pwritev(real_pwritev, fd, v, k, off); }
ssize_t pwritev64(int fd, const struct iovec* v, int k, off64_t off) { REAL(pwritev64); return do_pwritev(real_pwritev64, fd, v, k, off); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t off)
{
    REAL(pwrite);
    if (fd_on(fd)) {
        auto d = op("write", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) { real_pwrite(fd, b, n / 2, off); torn_exit(); }
        if (d == Do::Short && n > 1) n = (n + 1) / 2;
    }
    wrote(fd);
    return real_pwrite(fd, b, n, off);
}
// Operations on directory entries: counted where the entry is below the watched
// root, traced if they succeed.
#define GUARD(what, dfd, p)                                                   \
    if (g_on && p && (((dfd) != AT_FDCWD && (p)[0] != '/') || below(p))) {     \
        auto d = op(what, p);                                                 \
        if (d == Do::Fail) return -1;                                         \
        if (d == Do::Torn) torn_exit();                                       \
    }
#define DONE(what, r, path) if ((r) == 0) touch(what, path)
int mkdir(const char* p, mode_t m) noexcept
{
    REAL(mkdir);
    GUARD("mkdir", AT_FDCWD, p);
    const auto e = ENTRY(AT_FDCWD, p);
    const int r = real_mkdir(p, m);
    DONE("mkdir", r, e);
    return r;
}
int mkdirat(int dfd, const char* p, mode_t m) noexcept
{
    REAL(mkdirat);
    GUARD("mkdir", dfd, p);
    const auto e = ENTRY(dfd, p);
    const int r = real_mkdirat(dfd, p, m);
    DONE("mkdir", r, e);
    return r;
}
int unlinkat(int dfd, const char* p, int flags) noexcept
{
    REAL(unlinkat);
    GUARD("unlink", dfd, p);
    const auto e = ENTRY(dfd, p);
    const int r = real_unlinkat(dfd, p, flags);
    DONE("unlink", r, e);
    return r;
}
int unlink(const char* p) noexcept
{
    REAL(unlink);
    GUARD("unlink", AT_FDCWD, p);
    const auto e = ENTRY(AT_FDCWD, p);
    const int r = real_unlink(p);
    DONE("unlink", r, e);
    return r;
}
int rmdir(const char* p) noexcept
{
    REAL(rmdir);
    GUARD("unlink", AT_FDCWD, p);
    const auto e = ENTRY(AT_FDCWD, p);
    const int r = real_rmdir(p);
    DONE("unlink", r, e);
    return r;
}
int remove(const char* p) noexcept
{
    REAL(remove);
    GUARD("unlink", AT_FDCWD, p);
    const auto e = ENTRY(AT_FDCWD, p);
    const int r = real_remove(p);
    DONE("unlink", r, e);
    return r;
}
int rename(const char* a, const char* b) noexcept
{
    REAL(rename);
    GUARD("rename", AT_FDCWD, b);
    const auto e = ENTRY(AT_FDCWD, a), h = ENTRY(AT_FDCWD, b);
    const int r = real_rename(a, b);
    DONE("unlink", r, e);
    DONE("create", r, h);
    return r;
}
int renameat(int da, const char* a, int db, const char* b) noexcept
{
    REAL(renameat);
    GUARD("rename", db, b);
    const auto e = ENTRY(da, a), h = ENTRY(db, b);
    const int r = real_renameat(da, a, db, b);
    DONE("unlink", r, e);
    DONE("create", r, h);
    return r;
}
int renameat2(int da, const char* a, int db, const char* b, unsigned flags) noexcept
{
    REAL(renameat2);
    GUARD("rename", db, b);
    const auto e = ENTRY(da, a), h = ENTRY(db, b);
    const int r = real_renameat2(da, a, db, b, flags);
    DONE("unlink", r, e);
    DONE("create", r, h);
    return r;
}
int symlink(const char* a, const char* b) noexcept
{
    REAL(symlink);
    GUARD("create", AT_FDCWD, b);
    const auto e = ENTRY(AT_FDCWD, b);
    const int r = real_symlink(a, b);
    DONE("create", r, e);
    return r;
}
int link(const char* a, const char* b) noexcept
{
    REAL(link);
    GUARD("create", AT_FDCWD, b);
    const auto e = ENTRY(AT_FDCWD, b);
    const int r = real_link(a, b);
    DONE("create", r, e);
    return r;
}
int chmod(const char* p, mode_t m) noexcept
{
    REAL(chmod);
    char to[PATH_MAX];
    const std::string e = g_trace && realpath(p, to) ? to : "";
    const int r = real_chmod(p, m);
    DONE("chmod", r, e);
    return r;
}
int fchmodat(int dfd, const char* p, mode_t m, int flags) noexcept
{
    REAL(fchmodat);
    const auto e = ENTRY(dfd, p);
    char to[PATH_MAX];
    const int r = real_fchmodat(dfd, p, m, flags);
    DONE("chmod", r, g_trace && realpath(e.c_str(), to) ? to : e);
    return r;
}
int truncate(const char* p, off_t n) noexcept
{
    REAL(truncate);
    GUARD("truncate", AT_FDCWD, p);
    char to[PATH_MAX];
    const std::string e = g_trace && realpath(p, to) ? to : "";
    const int r = real_truncate(p, n);
    DONE("truncate", r, e);
    return r;
}
int truncate64(const char* p, off64_t n) noexcept
{
    REAL(truncate64);
    GUARD("truncate", AT_FDCWD, p);
    char to[PATH_MAX];
    const std::string e = g_trace && realpath(p, to) ? to : "";
    const int r = real_truncate64(p, n);
    DONE("truncate", r, e);
    return r;
}
int ftruncate(int fd, off_t n) noexcept
{
    REAL(ftruncate);
    if (fd_on(fd)) {
        auto d = op("truncate", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) torn_exit();
    }
    const int r = real_ftruncate(fd, n);
    if (r == 0) wrote(fd, "truncate");
    return r;
}
int ftruncate64(int fd, off64_t n) noexcept
{
    REAL(ftruncate64);
    if (fd_on(fd)) {
        auto d = op("truncate", nullptr);
        if (d == Do::Fail) return -1;
        if (d == Do::Torn) torn_exit();
    }
    const int r = real_ftruncate64(fd, n);
    if (r == 0) wrote(fd, "truncate");
    return r;
}
int openat(int dfd, const char* p, int flags, ...)
{
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    REAL(openat);
    const bool w = (flags & (O_WRONLY | O_RDWR | O_CREAT)) != 0;
    if (w) GUARD("open", dfd, p);
    const bool existed = g_trace && w && there(entry(dfd, p).c_str());
    const int fd = real_openat(dfd, p, flags, m);
    if (fd >= 0) mark(fd, w && g_on);
    if (w) opened(fd, flags, existed);
    return fd;
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
// (glibc's own remove_all of std::filesystem goes through openat and unlinkat)
}
