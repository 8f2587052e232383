// Fork server: reads jobs, runs each in a forked child, returns results.
#include "rt.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <hdf5.h>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static int result_fd = -1;

static void put(std::string &o, const std::string &k, const std::string &v)
{
    uint32_t kl = k.size();
    u64 vl      = v.size();
    o.append((char *)&kl, 4);
    o.append(k);
    o.append((char *)&vl, 8);
    o.append(v);
}
static void put(std::string &o, const std::string &k, u64 v)
{
    put(o, k, std::to_string(v));
}
static void put_end(std::string &o)
{
    uint32_t z = 0;
    o.append((char *)&z, 4);
}
static void send_all(int fd, const std::string &s)
{
    size_t n = 0;
    while (n < s.size()) {
        long r = syscall(SYS_write, fd, s.data() + n, s.size() - n);
        if (r <= 0)
            break;
        n += r;
    }
}

[[noreturn]] void finish(const char *how, int status)
{
    heap_dead = true;
    sched_account();
    active = false;
    in_sim = 100;
    std::string o;
    put(o, "how", std::string(how));
    put(o, "status", (u64)status);
    put(o, "screen", screen);
    put(o, "err", errtext);
    put(o, "raw_stderr", raw_stderr.substr(0, 4000));
    for (auto &f : vfs_dump())
        put(o, "file", f.first + std::string(1, '\0') + f.second);
    put(o, "events", stats.events);
    put(o, "syncs", stats.syncs);
    put(o, "preemptions", stats.preemptions);
    put(o, "blocks", stats.blocks);
    put(o, "regions", stats.regions);
    put(o, "max_team", (u64)stats.max_team);
    put(o, "fibers", (u64)stats.max_fibers);
    for (auto &t : stats.team_sizes)
        put(o, "team", std::to_string(t.first) + " " + std::to_string(t.second));
    put(o, "sched_hash", stats.hash);
    put(o, "io_ops", io_ops);
    put(o, "allocs", alloc_seen);
    put(o, "alloc_failed", alloc_failed);
    put(o, "clock_reads", clock_reads);
    char b[128];
    snprintf(b, sizeof b, "%.17g %.17g", clock_first, clock_last);
    put(o, "clock", std::string(b));
    put(o, "signals", (u64)signals_delivered);
    for (auto &f : fault_counts)
        put(o, "fault", f.first + " " + std::to_string(f.second));
    {
        std::string s;
        for (auto &f : job.faults)
            s += std::to_string(f.seen) + " " + std::to_string(f.fired) + "\n";
        put(o, "fault_seen", s);
    }
    if (job.want_decisions) {
        std::string s;
        for (auto &d : decisions) {
            snprintf(b, sizeof b, "%d %llu %d\n", d.from,
                     (unsigned long long)d.at, d.to);
            s += b;
        }
        put(o, "decisions", s);
    }
    put(o, "n_decisions", (u64)decisions.size());
    if (job.scout) {
        std::string s;
        for (auto &r : races) {
            snprintf(b, sizeof b, "%llx %llx %llu\n",
                     (unsigned long long)r.first.first,
                     (unsigned long long)r.first.second,
                     (unsigned long long)r.second);
            s += b;
        }
        put(o, "races", s);
    }
    if (job.alloc_sites)
        put(o, "alloc_sites",
            std::string((char *)alloc_sites.data(), 4 * alloc_sites.size()));
    if (job.want_io_trace) {
        std::string s;
        for (auto &t : io_trace) {
            s += t.kind;
            s += "\t" + t.path + "\t" + std::to_string(t.size) + "\t" +
                 std::to_string(t.ret) + "\t" + std::to_string(t.event) + "\n";
        }
        put(o, "io_trace", s);
    }
    put_end(o);
    send_all(result_fd, o);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

[[noreturn]] void fatal(const char *msg)
{
    heap_dead = true;
    sched_account();
    active = false;
    std::string o;
    put(o, "how", std::string("simulator-error"));
    put(o, "status", (u64)0);
    put(o, "message", std::string(msg));
    put_end(o);
    send_all(result_fd, o);
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

static void on_exit_handler(int status, void *)
{
    if (active)
        finish("exit", status & 0xff);
}

static void crash_handler(int s)
{
    if (!active) {
        void *bt[40];
        backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
        syscall(SYS_exit_group, 99);
    }
    if (s == SIGXCPU)
        finish("cpu-limit", 0);
    finish("signal", s);
}

__attribute__((constructor)) static void init()
{
    setup_streams();
    on_exit(on_exit_handler, nullptr);
}

static bool read_all(int fd, void *p, size_t n)
{
    char *c = (char *)p;
    while (n) {
        long r = syscall(SYS_read, fd, c, n);
        if (r <= 0)
            return false;
        c += r;
        n -= r;
    }
    return true;
}

typedef std::vector<std::pair<std::string, std::string>> Msg;
static bool read_msg(int fd, Msg &m)
{
    m.clear();
    for (;;) {
        uint32_t kl;
        if (!read_all(fd, &kl, 4))
            return false;
        if (!kl)
            return true;
        std::string k(kl, 0);
        if (!read_all(fd, &k[0], kl))
            return false;
        u64 vl;
        if (!read_all(fd, &vl, 8))
            return false;
        std::string v(vl, 0);
        if (vl && !read_all(fd, &v[0], vl))
            return false;
        m.emplace_back(k, v);
    }
}

static std::vector<std::string> split(const std::string &s, char c)
{
    std::vector<std::string> r;
    size_t b = 0;
    for (;;) {
        size_t e = s.find(c, b);
        if (e == std::string::npos) {
            r.push_back(s.substr(b));
            return r;
        }
        r.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}

static void parse(const Msg &m, Job &j)
{
    for (auto &kv : m) {
        const std::string &k = kv.first, &v = kv.second;
        auto U = [&] { return strtoull(v.c_str(), nullptr, 10); };
        auto I = [&] { return strtoll(v.c_str(), nullptr, 10); };
        auto D = [&] { return strtod(v.c_str(), nullptr); };
        if (k == "argv")
            j.argv.push_back(v);
        else if (k == "env") {
            size_t e = v.find('=');
            j.env.emplace_back(v.substr(0, e), v.substr(e + 1));
        }
        else if (k == "file") {
            size_t e              = v.find('\0');
            j.files[v.substr(0, e)] = v.substr(e + 1);
        }
        else if (k == "nprocs")
            j.nprocs = I();
        else if (k == "policy")
            j.policy = v;
        else if (k == "seed")
            j.seed = U();
        else if (k == "quantum")
            j.quantum = D();
        else if (k == "prob")
            j.prob = D();
        else if (k == "depth")
            j.depth = U();
        else if (k == "est")
            j.est_events = U();
        else if (k == "victim")
            j.victim = I();
        else if (k == "pc")
            j.pcs.push_back(strtoull(v.c_str(), nullptr, 16));
        else if (k == "replay") {
            std::istringstream s(v);
            Decision d;
            while (s >> d.from >> d.at >> d.to)
                j.replay.push_back(d);
        }
        else if (k == "scout")
            j.scout = I();
        else if (k == "max_events")
            j.max_events = U();
        else if (k == "wall_ms")
            j.wall_ms = U();
        else if (k == "fault") {
            auto f = split(v, '\t');
            Fault x;
            x.kind   = f[0];
            x.path   = f[1];
            x.nth    = strtoull(f[2].c_str(), nullptr, 10);
            x.count  = strtoull(f[3].c_str(), nullptr, 10);
            x.action = f[4];
            x.arg    = f.size() > 5 ? strtoull(f[5].c_str(), nullptr, 10) : 0;
            j.faults.push_back(x);
        }
        else if (k == "capacity")
            j.capacity = I();
        else if (k == "crash_event")
            j.crash_event = U();
        else if (k == "crash_io")
            j.crash_io = I();
        else if (k == "sig_event")
            j.sig_event = U();
        else if (k == "sig_event2")
            j.sig_event2 = U();
        else if (k == "sig_io")
            j.sig_io = I();
        else if (k == "sig_sync")
            j.sig_sync = I();
        else if (k == "signo")
            j.signo = I();
        else if (k == "alloc_fail")
            j.alloc_fail = U();
        else if (k == "alloc_count")
            j.alloc_count = U();
        else if (k == "alloc_sites")
            j.alloc_sites = I();
        else if (k == "alloc_min")
            j.alloc_min = U();
        else if (k == "heap_fill")
            j.heap_fill = I();
        else if (k == "heap_order")
            j.heap_order = I();
        else if (k == "clock")
            j.clock = v;
        else if (k == "tick")
            j.tick = D();
        else if (k == "jump") {
            std::istringstream s(v);
            ClockJump c;
            s >> c.at >> c.delta;
            j.jumps.push_back(c);
        }
        else if (k == "io_trace")
            j.want_io_trace = I();
        else if (k == "decisions")
            j.want_decisions = I();
    }
}

static void real_sigaction(int s, void (*h)(int), int flags)
{
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_handler  = h;
    a.sa_flags    = flags;
    static auto r = (int (*)(int, const struct sigaction *, struct sigaction *))
        dlsym(RTLD_NEXT, "sigaction");
    r(s, &a, nullptr);
}

// Nothing of what the server did before shows on the program's stack.
static void __attribute__((noinline)) wash_stack(int v)
{
    volatile char room[1 << 18];
    memset((void *)room, v, sizeof room);
    asm volatile("" ::"r"(room) : "memory");
}

static void child_run(int (*prog)(int, char **), const Msg &m)
{
    static Job &j = *new Job;
    parse(m, j);
    job = j;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_size = 1 << 18;
    ss.ss_sp   = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU})
        real_sigaction(s, crash_handler, SA_ONSTACK | SA_NODEFER);
    struct rlimit rl;
    rl.rlim_cur = job.wall_ms / 1000 + 1;
    rl.rlim_max = rl.rlim_cur + 20;
    setrlimit(RLIMIT_CPU, &rl);
    clearenv();
    for (auto &e : job.env)
        setenv(e.first.c_str(), e.second.c_str(), 1);
    vfs_reset(job.files);
    seed_fill(job.seed);
    sched_init();
    screen.clear();
    std::vector<char *> av;
    for (auto &a : job.argv)
        av.push_back(&a[0]);
    av.push_back(nullptr);
    int argc = job.argv.size();
    wash_stack(job.heap_fill < 0 ? 0 : job.heap_fill < 256 ? job.heap_fill : 0xa5);
    in_sim   = 0;
    active   = true;
    int r    = 0;
    try {
        r = prog(argc, av.data());
    }
    catch (...) {
        std::terminate();
    }
    exit(r);
}

// ------------------------------------------------------------- HDF5 dump
static std::string *h5out;
static void dump_dataset(hid_t loc, const char *name)
{
    hid_t d = H5Dopen2(loc, name, H5P_DEFAULT);
    if (d < 0) {
        put(*h5out, "!" + std::string(name), std::string("open"));
        return;
    }
    hid_t t = H5Dget_type(d), sp = H5Dget_space(d);
    hsize_t dims[16];
    int nd          = H5Sget_simple_extent_dims(sp, dims, nullptr);
    hssize_t n      = H5Sget_simple_extent_npoints(sp);
    H5T_class_t cls = H5Tget_class(t);
    std::ostringstream h;
    std::string data;
    herr_t e = 0;
    if (cls == H5T_STRING) {
        if (H5Tis_variable_str(t)) {
            std::vector<char *> p(n > 0 ? n : 1, nullptr);
            hid_t mt = H5Tcopy(H5T_C_S1);
            H5Tset_size(mt, H5T_VARIABLE);
            e = H5Dread(d, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, p.data());
            for (int i = 0; e >= 0 && i < n; i++)
                data += std::string(p[i] ? p[i] : "") + "\n";
        }
        else {
            size_t sz = H5Tget_size(t);
            data.resize(sz * n);
            e = H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, &data[0]);
        }
        h << "s";
    }
    else if (cls == H5T_INTEGER) {
        data.resize(8 * n);
        e = H5Dread(d, H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, &data[0]);
        h << "i";
    }
    else {
        data.resize(8 * n);
        e = H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT,
                    &data[0]);
        h << "f";
    }
    for (int i = 0; i < nd; i++)
        h << " " << dims[i];
    h << "\n";
    if (e < 0)
        put(*h5out, "!" + std::string(name), std::string("read"));
    else
        put(*h5out, std::string(name), h.str() + data);
    H5Tclose(t);
    H5Sclose(sp);
    H5Dclose(d);
}
static herr_t visit(hid_t g, const char *name, const H5O_info_t *info, void *)
{
    if (info->type == H5O_TYPE_DATASET)
        dump_dataset(g, name);
    else if (info->type == H5O_TYPE_GROUP)
        put(*h5out, "/" + std::string(name), std::string("g\n"));
    return 0;
}

static void child_h5(const Msg &m)
{
    std::string o;
    h5out = &o;
    std::map<std::string, std::string> files;
    for (auto &kv : m)
        if (kv.first == "blob")
            files["x.h5"] = kv.second;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
        real_sigaction(s, SIG_DFL, 0);
    struct rlimit rl = {20, 30};
    setrlimit(RLIMIT_CPU, &rl);
    vfs_reset(files);
    job    = Job();
    sched_init();
    in_sim = 0;
    active = true;
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fopen("x.h5", H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0)
        put(o, "!", std::string("cannot open"));
    else {
        if (H5Ovisit(f, H5_INDEX_NAME, H5_ITER_INC, visit, nullptr) < 0)
            put(o, "!", std::string("cannot iterate"));
        H5Fclose(f);
    }
    active = false;
    put_end(o);
    send_all(result_fd, o);
    syscall(SYS_exit_group, 0);
}

// builds a file from messages "name\tdims..." = raw doubles
static void child_mkh5(const Msg &m)
{
    std::string o;
    vfs_reset(std::map<std::string, std::string>());
    job = Job();
    sched_init();
    in_sim = 0;
    active = true;
    hid_t f = H5Fcreate("x.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    for (size_t i = 1; i < m.size(); i++) {
        std::istringstream h(m[i].first);
        std::string name;
        h >> name;
        std::vector<hsize_t> dims;
        hsize_t n;
        while (h >> n)
            dims.push_back(n);
        // intermediate groups
        hid_t lc = H5Pcreate(H5P_LINK_CREATE);
        H5Pset_create_intermediate_group(lc, 1);
        hid_t sp = H5Screate_simple(dims.size(), dims.data(), nullptr);
        hid_t d = H5Dcreate2(f, name.c_str(), H5T_NATIVE_DOUBLE, sp, lc,
                             H5P_DEFAULT, H5P_DEFAULT);
        H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT,
                 m[i].second.data());
        H5Dclose(d);
        H5Sclose(sp);
        H5Pclose(lc);
    }
    H5Fclose(f);
    active = false;
    put(o, "blob", vfs_dump()["x.h5"]);
    put_end(o);
    send_all(result_fd, o);
    syscall(SYS_exit_group, 0);
}

// collect the child's output; empty on death without result
static std::string collect(int fd, pid_t pid, u64 wall_ms, std::string &why)
{
    std::string out;
    char *buf = (char *)malloc(1 << 20);
    struct timespec t0, t1;
    syscall(SYS_clock_gettime, 1, &t0);
    bool killed = false;
    for (;;) {
        struct pollfd p = {fd, POLLIN, 0};
        int r           = syscall(SYS_poll, &p, 1, 1000);
        if (r > 0) {
            long n = syscall(SYS_read, fd, buf, 1 << 20);
            if (n <= 0)
                break;
            out.append(buf, n);
        }
        syscall(SYS_clock_gettime, 1, &t1);
        u64 ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
        if (!killed && ms > wall_ms * 6 + 60000) {
            kill(pid, SIGKILL);
            killed = true;
        }
    }
    free(buf);
    int st = 0;
    waitpid(pid, &st, 0);
    if (killed)
        why = "wall-limit";
    else if (WIFSIGNALED(st))
        why = "lost-signal-" + std::to_string(WTERMSIG(st));
    else if (WEXITSTATUS(st))
        why = "lost-exit-" + std::to_string(WEXITSTATUS(st));
    return out;
}
} // namespace sim

using namespace sim;

extern "C" int sim_main(int argc, char **argv, int (*prog)(int, char **))
{
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
            syscall(SYS_execve, "/proc/self/exe", argv, environ);
    }
    (void)argc;
    signal(SIGPIPE, SIG_DFL);
    int in = fcntl(0, F_DUPFD, 200), out = fcntl(1, F_DUPFD, 201);
    int nul = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (!getenv("SIM_DEBUG"))
        dup2(nul, 2);
    Msg m;
    while (read_msg(in, m)) {
        int p[2];
        if (pipe(p))
            return 3;
        std::string type = m.empty() ? "" : m[0].second;
        u64 wall         = 60000;
        for (auto &kv : m)
            if (kv.first == "wall_ms")
                wall = strtoull(kv.second.c_str(), nullptr, 10);
        pid_t pid = fork();
        if (pid == 0) {
            syscall(SYS_close, p[0]);
            syscall(SYS_close, in);
            syscall(SYS_close, out);
            result_fd = p[1];
            if (type == "h5")
                child_h5(m);
            else if (type == "mkh5")
                child_mkh5(m);
            else
                child_run(prog, m);
            syscall(SYS_exit_group, 98);
        }
        syscall(SYS_close, p[1]);
        std::string why;
        std::string o = pid > 0 ? collect(p[0], pid, wall, why) : "";
        syscall(SYS_close, p[0]);
        if (o.size() < 4 || !why.empty()) {
            o.clear();
            put(o, "how", why.empty() ? std::string("lost") : why);
            put(o, "status", (u64)0);
            put_end(o);
        }
        u64 len = o.size();
        send_all(out, std::string((char *)&len, 8));
        send_all(out, o);
    }
    return 0;
}
