// In-memory file system behind the libc entry points used by the program and
// its libraries, with a fault plan.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <poll.h>
#include <streambuf>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

std::vector<IoOp> io_trace;
u64 io_ops = 0;
std::map<std::string, u64> fault_counts;
std::string screen, errtext, raw_stderr;

struct Inode {
    std::string data;
    u64 ino;
};
struct OpenFile {
    std::shared_ptr<Inode> ino;
    std::string path;
    off_t pos = 0;
    int flags = 0;
};

static std::map<std::string, std::shared_ptr<Inode>> *dir_ = nullptr;
static std::map<int, OpenFile> *fds_ = nullptr;
static std::map<FILE *, int> *streams_ = nullptr;
static u64 next_ino = 1000;
static const int FD0 = 1000;

static std::map<std::string, std::shared_ptr<Inode>> &dir()
{
    if (!dir_)
        dir_ = new std::map<std::string, std::shared_ptr<Inode>>;
    return *dir_;
}
static std::map<int, OpenFile> &fds()
{
    if (!fds_)
        fds_ = new std::map<int, OpenFile>;
    return *fds_;
}
static std::map<FILE *, int> &streams()
{
    if (!streams_)
        streams_ = new std::map<FILE *, int>;
    return *streams_;
}

void vfs_reset(const std::map<std::string, std::string> &files)
{
    InSim s;
    dir().clear();
    fds().clear();
    for (auto &f : files) {
        auto i  = std::make_shared<Inode>();
        i->data = f.second;
        i->ino  = next_ino++;
        dir()[f.first] = i;
    }
}

std::map<std::string, std::string> vfs_dump()
{
    std::map<std::string, std::string> r;
    for (auto &d : dir())
        r[d.first] = d.second->data;
    return r;
}

static bool real_path(const char *p)
{
    static const char *pre[] = {"/proc/", "/sys/", "/dev/", "/etc/", "/usr/",
                                "/lib",   nullptr};
    if (!active || in_sim > 50)
        return true;
    for (int i = 0; pre[i]; i++)
        if (!strncmp(p, pre[i], strlen(pre[i])))
            return true;
    return false;
}
static std::string norm(const char *p)
{
    std::string s(p);
    while (s.compare(0, 2, "./") == 0)
        s = s.substr(2);
    return s;
}

static int err_of(const std::string &a)
{
    static const std::map<std::string, int> &m = *new std::map<std::string, int>{
        {"EIO", EIO},       {"ENOSPC", ENOSPC}, {"EDQUOT", EDQUOT},
        {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE},
        {"EROFS", EROFS},   {"EFBIG", EFBIG},   {"EINTR", EINTR},
        {"ENOENT", ENOENT}, {"EISDIR", EISDIR}, {"EPIPE", EPIPE},
        {"ENOMEM", ENOMEM}, {"EPERM", EPERM},   {"EAGAIN", EAGAIN},
        {"ESTALE", ESTALE}};
    auto i = m.find(a);
    return i == m.end() ? 0 : i->second;
}

struct Verdict {
    int err        = 0;
    bool shortened = false;
    u64 limit      = 0;
    bool torn      = false;
};

static bool suffix(const std::string &s, const std::string &x)
{
    return x.empty() || (s.size() >= x.size() &&
                         s.compare(s.size() - x.size(), x.size(), x) == 0);
}

// One I/O operation: count it, deliver planned signals/crashes, decide faults.
static Verdict io_point(const char *kind, const std::string &path, int64_t size)
{
    Verdict v;
    if (!active)
        return v;
    countdown--;
    u64 n = io_ops++;
    if (job.want_io_trace)
        io_trace.push_back({kind, path, size, 0, events_now()});
    if (job.crash_io >= 0 && n == (u64)job.crash_io) {
        fault_counts["crash@io"]++;
        finish("crash", 0);
    }
    if (job.sig_io >= 0 && n == (u64)job.sig_io) {
        int save = in_sim;
        in_sim   = 0;
        deliver_signal();
        in_sim = save;
    }
    for (auto &f : job.faults) {
        if (f.kind != "any" && f.kind != kind &&
            !(f.kind == "open" && !strcmp(kind, "wopen")))
            continue;
        if (!suffix(path, f.path))
            continue;
        u64 k = f.seen++;
        if (k < f.nth || k >= f.nth + f.count)
            continue;
        f.fired++;
        fault_counts[std::string(kind) + ":" + f.action]++;
        if (f.action == "crash")
            finish("crash", 0);
        if (f.action == "short") {
            v.shortened = true;
            v.limit     = f.arg;
        }
        else if (f.action == "torn") {
            v.torn  = true;
            v.limit = f.arg;
        }
        else
            v.err = err_of(f.action);
    }
    return v;
}

static void set_ret(int64_t r)
{
    if (job.want_io_trace && active && !io_trace.empty())
        io_trace.back().ret = r;
}

static int64_t disk_used()
{
    int64_t t = 0;
    for (auto &d : dir())
        t += d.second->data.size();
    return t;
}

static int v_open(const char *p, int flags)
{
    InSim s;
    std::string path = norm(p);
    int acc          = flags & O_ACCMODE;
    Verdict v = io_point(acc == O_RDONLY ? "open" : "wopen", path, flags);
    if (v.err) {
        errno = v.err;
        set_ret(-1);
        return -1;
    }
    auto it = dir().find(path);
    std::shared_ptr<Inode> ino;
    if (it == dir().end()) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            set_ret(-1);
            return -1;
        }
        ino         = std::make_shared<Inode>();
        ino->ino    = next_ino++;
        dir()[path] = ino;
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) {
            errno = EEXIST;
            set_ret(-1);
            return -1;
        }
        ino = it->second;
        if ((flags & O_TRUNC) && acc != O_RDONLY)
            ino->data.clear();
    }
    int fd = FD0;
    while (fds().count(fd))
        fd++;
    OpenFile o;
    o.ino   = ino;
    o.path  = path;
    o.flags = flags;
    fds()[fd] = o;
    set_ret(fd);
    return fd;
}

static ssize_t v_read(OpenFile &o, void *buf, size_t n, off_t pos)
{
    Verdict v = io_point("read", o.path, n);
    if (v.err) {
        errno = v.err;
        set_ret(-1);
        return -1;
    }
    if (v.shortened && v.limit < n)
        n = v.limit < 1 ? 1 : v.limit;
    std::string &d = o.ino->data;
    if (pos >= (off_t)d.size())
        n = 0;
    else
        n = std::min<size_t>(n, d.size() - pos);
    memcpy(buf, d.data() + pos, n);
    set_ret(n);
    return n;
}

static ssize_t v_write(OpenFile &o, const void *buf, size_t n, off_t pos)
{
    Verdict v = io_point("write", o.path, n);
    if (v.err) {
        errno = v.err;
        set_ret(-1);
        return -1;
    }
    if (v.shortened && v.limit < n)
        n = v.limit < 1 ? 1 : v.limit;
    if (v.torn && v.limit < n)
        n = v.limit;
    std::string &d = o.ino->data;
    if (job.capacity >= 0) {
        int64_t grow = pos + (off_t)n - (off_t)d.size();
        if (grow > 0) {
            int64_t room = job.capacity - disk_used();
            if (room < grow) {
                fault_counts["capacity:ENOSPC"]++;
                int64_t can = (int64_t)n - (grow - std::max<int64_t>(0, room));
                if (can <= 0) {
                    errno = ENOSPC;
                    set_ret(-1);
                    return -1;
                }
                n = can;
            }
        }
    }
    if (pos + (off_t)n > (off_t)d.size())
        d.resize(pos + n, 0);
    memcpy(&d[0] + pos, buf, n);
    if (v.torn)
        finish("crash", 0);
    set_ret(n);
    return n;
}

static int v_close(int fd)
{
    InSim s;
    auto it = fds().find(fd);
    if (it == fds().end()) {
        errno = EBADF;
        return -1;
    }
    Verdict v = io_point("close", it->second.path, 0);
    fds().erase(it);
    if (v.err) {
        errno = v.err;
        set_ret(-1);
        return -1;
    }
    return 0;
}

static OpenFile *of(int fd)
{
    if (fd < FD0 || !fds_)
        return nullptr;
    auto it = fds().find(fd);
    return it == fds().end() ? nullptr : &it->second;
}

static void fill_stat(struct stat *st, const Inode &i)
{
    memset(st, 0, sizeof *st);
    st->st_mode    = S_IFREG | 0644;
    st->st_size    = i.data.size();
    st->st_ino     = i.ino;
    st->st_dev     = 77;
    st->st_nlink   = 1;
    st->st_blksize = 4096;
    st->st_blocks  = (i.data.size() + 511) / 512;
    st->st_uid     = 0;
}

long raw_write(int fd, const void *p, size_t n)
{
    return syscall(SYS_write, fd, p, n);
}

// ------------------------------------------------------------- screen
class CaptureBuf : public std::streambuf {
public:
    explicit CaptureBuf(std::string *dst, const char *name)
        : dst_(dst), name_(name)
    {
    }

protected:
    bool ok(size_t n)
    {
        if (!active)
            return true;
        InSim s;
        Verdict v = io_point("screen", name_, n);
        return v.err == 0;
    }
    int overflow(int c) override
    {
        if (c == EOF)
            return 0;
        if (!ok(1))
            return EOF;
        InSim s;
        dst_->push_back((char)c);
        return c;
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        if (!ok(n))
            return 0;
        InSim s;
        dst_->append(p, n);
        return n;
    }
    int sync() override
    {
        return 0;
    }

private:
    std::string *dst_;
    const char *name_;
};

static ssize_t cap_write(void *c, const char *p, size_t n)
{
    InSim s;
    ((std::string *)c)->append(p, n);
    return n;
}

void setup_streams()
{
    alignas(CaptureBuf) static char b1[sizeof(CaptureBuf)],
        b2[sizeof(CaptureBuf)];
    CaptureBuf *o = new (b1) CaptureBuf(&screen, "<screen>");
    CaptureBuf *e = new (b2) CaptureBuf(&errtext, "<stderr>");
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    std::clog.rdbuf(e);
    cookie_io_functions_t f = {nullptr, cap_write, nullptr, nullptr};
    FILE *so = fopencookie(&screen, "w", f);
    setvbuf(so, nullptr, _IONBF, 0);
    FILE *se = fopencookie(&raw_stderr, "w", f);
    setvbuf(se, nullptr, _IONBF, 0);
    stdout = so;
    stderr = se;
}

// ------------------------------------------------------------- FILE cookies
static ssize_t ck_read(void *c, char *p, size_t n)
{
    OpenFile *o = of((int)(intptr_t)c);
    if (!o) {
        errno = EBADF;
        return -1;
    }
    InSim s;
    ssize_t r = v_read(*o, p, n, o->pos);
    if (r > 0)
        o->pos += r;
    return r;
}
static ssize_t ck_write(void *c, const char *p, size_t n)
{
    OpenFile *o = of((int)(intptr_t)c);
    if (!o) {
        errno = EBADF;
        return 0;
    }
    InSim s;
    size_t done = 0;
    while (done < n) {
        off_t at  = (o->flags & O_APPEND) ? (off_t)o->ino->data.size() : o->pos;
        ssize_t r = v_write(*o, p + done, n - done, at);
        if (r <= 0)
            return done; // 0 signals an error to stdio
        o->pos = at + r;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int whence)
{
    OpenFile *o = of((int)(intptr_t)c);
    if (!o)
        return -1;
    InSim s;
    Verdict v = io_point("seek", o->path, *off);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    off_t b = whence == SEEK_SET ? 0
              : whence == SEEK_CUR ? o->pos
                                   : (off_t)o->ino->data.size();
    if (b + *off < 0) {
        errno = EINVAL;
        return -1;
    }
    o->pos = b + *off;
    *off   = o->pos;
    return 0;
}
static int ck_close(void *c)
{
    return v_close((int)(intptr_t)c);
}
} // namespace sim

using namespace sim;

#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

extern "C" {

int open(const char *p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, int);
        va_end(a);
    }
    if (real_path(p)) {
        if (active && (flags & O_ACCMODE) != O_RDONLY && strncmp(p, "/dev/", 5)) {
            errno = EROFS;
            return -1;
        }
        return syscall(SYS_openat, AT_FDCWD, p, flags, m);
    }
    return v_open(p, flags);
}
int open64(const char *p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, int);
        va_end(a);
    }
    return open(p, flags, m);
}
int __open_2(const char *p, int flags)
{
    return open(p, flags, 0);
}
int __open64_2(const char *p, int flags)
{
    return open(p, flags, 0);
}
int creat(const char *p, mode_t m)
{
    return open(p, O_CREAT | O_WRONLY | O_TRUNC, m);
}
int openat(int d, const char *p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, int);
        va_end(a);
    }
    if (d == AT_FDCWD)
        return open(p, flags, m);
    return syscall(SYS_openat, d, p, flags, m);
}
int close(int fd)
{
    if (fd >= FD0 && active)
        return v_close(fd);
    return syscall(SYS_close, fd);
}
ssize_t read(int fd, void *b, size_t n)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_read, fd, b, n);
    InSim s;
    ssize_t r = v_read(*o, b, n, o->pos);
    if (r > 0)
        o->pos += r;
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    OpenFile *o = of(fd);
    if (!o) {
        if (active && fd == 1) {
            InSim s;
            screen.append((const char *)b, n);
            return n;
        }
        if (active && fd == 2) {
            InSim s;
            raw_stderr.append((const char *)b, n);
            return n;
        }
        return syscall(SYS_write, fd, b, n);
    }
    InSim s;
    off_t at  = (o->flags & O_APPEND) ? (off_t)o->ino->data.size() : o->pos;
    ssize_t r = v_write(*o, b, n, at);
    if (r > 0)
        o->pos = at + r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_writev, fd, v, c);
    std::string all;
    {
        InSim s;
        for (int i = 0; i < c; i++)
            all.append((const char *)v[i].iov_base, v[i].iov_len);
    }
    return write(fd, all.data(), all.size());
}
ssize_t pread(int fd, void *b, size_t n, off_t off)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_pread64, fd, b, n, off);
    InSim s;
    return v_read(*o, b, n, off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off)
{
    return pread(fd, b, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_pwrite64, fd, b, n, off);
    InSim s;
    return v_write(*o, b, n, off);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off)
{
    return pwrite(fd, b, n, off);
}
off_t lseek(int fd, off_t off, int whence)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_lseek, fd, off, whence);
    InSim s;
    off64_t x = off;
    if (ck_seek((void *)(intptr_t)fd, &x, whence) < 0)
        return -1;
    return x;
}
off64_t lseek64(int fd, off64_t off, int whence)
{
    return lseek(fd, off, whence);
}
int ftruncate(int fd, off_t n)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_ftruncate, fd, n);
    InSim s;
    Verdict v = io_point("trunc", o->path, n);
    if (v.err) {
        errno = v.err;
        set_ret(-1);
        return -1;
    }
    if (job.capacity >= 0 &&
        disk_used() + n - (int64_t)o->ino->data.size() > job.capacity) {
        // sparse extension does not allocate blocks: allowed
    }
    o->ino->data.resize(n, 0);
    return 0;
}
int ftruncate64(int fd, off64_t n)
{
    return ftruncate(fd, n);
}
int truncate(const char *p, off_t n)
{
    int fd = open(p, O_WRONLY);
    if (fd < 0)
        return -1;
    int r = ftruncate(fd, n);
    close(fd);
    return r;
}
int fsync(int fd)
{
    OpenFile *o = of(fd);
    if (!o)
        return fd >= FD0 ? -1 : 0;
    InSim s;
    Verdict v = io_point("sync", o->path, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    return 0;
}
int fdatasync(int fd)
{
    return fsync(fd);
}
int flock(int fd, int op)
{
    if (of(fd))
        return 0;
    return syscall(SYS_flock, fd, op);
}
int fcntl(int fd, int cmd, ...)
{
    va_list a;
    va_start(a, cmd);
    void *x = va_arg(a, void *);
    va_end(a);
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_fcntl, fd, cmd, x);
    if (cmd == F_GETFL)
        return o->flags;
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list a;
    va_start(a, cmd);
    void *x = va_arg(a, void *);
    va_end(a);
    return fcntl(fd, cmd, x);
}
int fstat(int fd, struct stat *st)
{
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_fstat, fd, st);
    InSim s;
    Verdict v = io_point("stat", o->path, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    fill_stat(st, *o->ino);
    return 0;
}
int fstat64(int fd, struct stat64 *st)
{
    return fstat(fd, (struct stat *)st);
}
int stat(const char *p, struct stat *st)
{
    if (real_path(p))
        return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
    InSim s;
    std::string path = norm(p);
    Verdict v        = io_point("stat", path, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    auto it = dir().find(path);
    if (it == dir().end()) {
        if (path == "." || path == "" || path == "/") {
            memset(st, 0, sizeof *st);
            st->st_mode = S_IFDIR | 0755;
            return 0;
        }
        errno = ENOENT;
        return -1;
    }
    fill_stat(st, *it->second);
    return 0;
}
int stat64(const char *p, struct stat64 *st)
{
    return stat(p, (struct stat *)st);
}
int lstat(const char *p, struct stat *st)
{
    if (real_path(p))
        return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
    return stat(p, st);
}
int lstat64(const char *p, struct stat64 *st)
{
    return lstat(p, (struct stat *)st);
}
int __xstat(int, const char *p, struct stat *st)
{
    return stat(p, st);
}
int __fxstat(int, int fd, struct stat *st)
{
    return fstat(fd, st);
}
int __xstat64(int, const char *p, struct stat64 *st)
{
    return stat64(p, st);
}
int __fxstat64(int, int fd, struct stat64 *st)
{
    return fstat64(fd, st);
}
int access(const char *p, int m)
{
    if (real_path(p))
        return syscall(SYS_access, p, m);
    InSim s;
    std::string path = norm(p);
    Verdict v        = io_point("stat", path, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    if (dir().count(path))
        return 0;
    errno = ENOENT;
    return -1;
}
int unlink(const char *p)
{
    if (!active)
        return syscall(SYS_unlink, p);
    InSim s;
    std::string path = norm(p);
    Verdict v        = io_point("unlink", path, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    if (!dir().erase(path)) {
        errno = ENOENT;
        return -1;
    }
    return 0;
}
int remove(const char *p)
{
    return unlink(p);
}
int rename(const char *a, const char *b)
{
    if (!active)
        return syscall(SYS_rename, a, b);
    InSim s;
    std::string x = norm(a), y = norm(b);
    Verdict v = io_point("rename", y, 0);
    if (v.err) {
        errno = v.err;
        return -1;
    }
    auto it = dir().find(x);
    if (it == dir().end()) {
        errno = ENOENT;
        return -1;
    }
    auto ino = it->second;
    dir().erase(it);
    dir()[y] = ino;
    return 0;
}
int mkdir(const char *, mode_t)
{
    return 0;
}
int rmdir(const char *)
{
    return 0;
}
int chdir(const char *)
{
    errno = ENOENT;
    return -1;
}
int system(const char *)
{
    errno = ENOSYS;
    return -1;
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list a;
    va_start(a, req);
    void *x = va_arg(a, void *);
    va_end(a);
    OpenFile *o = of(fd);
    if (!o)
        return syscall(SYS_ioctl, fd, req, x);
    if (req == FIONREAD) {
        *(int *)x = (int)(o->ino->data.size() - o->pos);
        return 0;
    }
    errno = ENOTTY;
    return -1;
}
int poll(struct pollfd *p, nfds_t n, int to)
{
    if (n == 1 && of(p->fd)) {
        p->revents = p->events;
        return 1;
    }
    return syscall(SYS_poll, p, n, to);
}
char *getcwd(char *b, size_t n)
{
    if (!active)
        return syscall(SYS_getcwd, b, n) > 0 ? b : nullptr;
    if (!b)
        b = (char *)__builtin_malloc(n ? n : 16);
    strcpy(b, "/simdir");
    return b;
}

static int mode_flags(const char *m)
{
    bool plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
    case 'r':
        return plus ? O_RDWR : O_RDONLY;
    case 'w':
        return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    case 'a':
        return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
    return O_RDONLY;
}
FILE *fopen(const char *p, const char *m)
{
    if (real_path(p)) {
        static auto r = REAL(fopen);
        return r(p, m);
    }
    int fl = mode_flags(m);
    int fd = v_open(p, fl);
    if (fd < 0)
        return nullptr;
    InSim s;
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    const char *cm = m[0] == 'r' ? (strchr(m, '+') ? "r+" : "r")
                     : m[0] == 'w' ? (strchr(m, '+') ? "w+" : "w")
                                   : (strchr(m, '+') ? "a+" : "a");
    FILE *st = fopencookie((void *)(intptr_t)fd, cm, f);
    if (st)
        streams()[st] = fd;
    return st;
}
FILE *fopen64(const char *p, const char *m)
{
    return fopen(p, m);
}
int fileno(FILE *f)
{
    if (streams_) {
        auto it = streams().find(f);
        if (it != streams().end())
            return it->second;
    }
    static auto r = REAL(fileno);
    return r(f);
}
int fclose(FILE *f)
{
    static auto r = REAL(fclose);
    if (streams_) {
        InSim s;
        auto it = streams().find(f);
        if (it != streams().end())
            streams().erase(it);
    }
    return r(f);
}
}
