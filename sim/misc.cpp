// Clock, signals, memory, process exit.
#include "rt.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

u64 clock_reads = 0;
double clock_first = 0, clock_last = 0;
static double jump_sum = 0;
static const double EPOCH = 1500000000.0;

// Simulated seconds: advance with events, plus one tick per reading; jumps
// are applied at chosen readings.
double clock_read()
{
    u64 n = clock_reads++;
    for (auto &j : job.jumps)
        if (j.at == n) {
            jump_sum += j.delta;
            fault_counts[j.delta < 0 ? "clock:jump-back" : "clock:jump-forward"]++;
        }
    double t;
    if (job.clock == "frozen")
        t = EPOCH;
    else
        t = EPOCH + job.tick * (double)(events_now() + n);
    t += jump_sum;
    if (n == 0)
        clock_first = t;
    clock_last = t;
    return t;
}

// ------------------------------------------------------------- signals
static struct sigaction handlers[65];
int signals_delivered = 0;

static sigset_t blocked_set;
static bool pending = false;

void deliver_signal()
{
    int s = job.signo;
    if (sigismember(&blocked_set, s) == 1) {
        pending = true;
        return;
    }
    pending = false;
    signals_delivered++;
    {
        InSim g;
        fault_counts["signal"]++;
    }
    void (*h)(int) = handlers[s].sa_handler;
    if (h == SIG_IGN)
        return;
    if (h == SIG_DFL)
        finish("killed-by-signal", 128 + s);
    if (handlers[s].sa_flags & SA_RESETHAND)
        handlers[s].sa_handler = SIG_DFL;
    // the signal is blocked while its handler runs
    static bool in_handler = false;
    if (in_handler && !(handlers[s].sa_flags & SA_NODEFER))
        return;
    in_handler = true;
    if (handlers[s].sa_flags & SA_SIGINFO)
        handlers[s].sa_sigaction(s, nullptr, nullptr);
    else
        h(s);
    in_handler = false;
}

u64 alloc_seen = 0, alloc_failed = 0;
std::vector<uint32_t> &alloc_sites = *new std::vector<uint32_t>;
static Rng fill_rng(99);
void seed_fill(u64 seed)
{
    fill_rng = Rng(99 + seed);
}
static bool alloc_fails(size_t n)
{
    if (!active || in_sim)
        return false;
    if (n < job.alloc_min)
        return false;
    u64 k = ++alloc_seen;
    if (job.alloc_sites) {
        // which call chain asks, numbered in order of appearance
        in_sim++;
        static auto &known = *new std::unordered_map<u64, uint32_t>;
        void *b[30];
        int m = backtrace(b, 30);
        u64 h = 1469598103934665603ull;
        for (int i = 2; i < m; i++)
            h = (h ^ (u64)b[i]) * 1099511628211ull;
        uint32_t id = known.emplace(h, (uint32_t)known.size()).first->second;
        alloc_sites.push_back(id);
        in_sim--;
    }
    if (job.alloc_fail && k >= job.alloc_fail &&
        k < job.alloc_fail + job.alloc_count) {
        alloc_failed++;
        errno = ENOMEM;
        return true;
    }
    return false;
}
static void fill(void *p, size_t n)
{
    if (!active || in_sim || job.heap_fill < 0 || !p)
        return;
    if (job.heap_fill < 256)
        memset(p, job.heap_fill, n);
    else {
        for (size_t i = 0; i + 8 <= n; i += 8)
            ((u64 *)p)[i / 8] = fill_rng.next();
    }
}
// After a crash the program's heap cannot be trusted: the report is put
// together in memory of its own.
bool heap_dead = false;
static char *area(uintptr_t at, size_t sz)
{
    return (char *)syscall(SYS_mmap, (void *)at, sz, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void *bump(size_t a, size_t n)
{
    static char *at = nullptr, *end = nullptr;
    if (!at) {
        size_t sz = (size_t)4 << 30;
        at        = area(0, sz);
        end       = at + sz;
    }
    if (a < 16)
        a = 16;
    char *p = (char *)(((uintptr_t)at + a - 1) / a * a);
    if (p + n > end)
        return nullptr;
    at = p + n;
    return p;
}

// The heap of the simulated program: at a fixed place, and what is handed out
// follows from the program's own requests only.  So even a race on a pointer
// repeats exactly.
struct Block {
    u64 size; // usable bytes, names the free list
    u64 mark; // state, and for aligned blocks the way back
};
static const u64 LIVE = 0x5ca1ab1e00000000ull, DEAD = 0xdeadbeef00000000ull,
                 SKIP = 0x0ff5e70000000000ull, HIGH = 0xffffffff00000000ull;
static const uintptr_t HEAP_AT = 0x200000000000ull;
static const size_t HEAP_SIZE  = (size_t)16 << 30;
static char *heap_lo = nullptr, *heap_at = nullptr, *heap_end = nullptr,
            *heap_hi = nullptr;
static char *free_list[1024];

static bool ours(void *p)
{
    return (char *)p >= heap_lo && (char *)p < heap_hi;
}
// 16, 32 ... 1024, then four sizes per power of two
static size_t size_class(size_t n, int &c)
{
    if (n <= 1024) {
        c = n ? (int)((n + 15) / 16) : 1;
        return (size_t)c * 16;
    }
    int b       = 63 - __builtin_clzll(n - 1);
    size_t step = ((size_t)1 << b) / 4;
    size_t k    = (n - ((size_t)1 << b) + step - 1) / step;
    c           = 64 + (b - 10) * 4 + (int)k;
    return ((size_t)1 << b) + k * step;
}
static void *heap_get(size_t n)
{
    if (!heap_lo) {
        heap_lo = heap_at = area(HEAP_AT, HEAP_SIZE);
        heap_hi = heap_end = heap_lo + HEAP_SIZE;
    }
    if (n > HEAP_SIZE)
        return nullptr;
    int c;
    size_t sz = size_class(n, c);
    char *p   = free_list[c];
    if (p) {
        free_list[c] = *(char **)p;
    }
    else {
        // gaps hold what memory outside of blocks may hold
        size_t gap = job.heap_order == 2 ? fill_rng.next() % 8 * 16 : 0;
        size_t all = sizeof(Block) + sz + gap;
        if (heap_at + all > heap_end)
            return nullptr;
        bool down = job.heap_order == 1 ||
                    (job.heap_order == 2 && (fill_rng.next() & 1));
        char *q = heap_at;
        if (down)
            q = heap_end -= all;
        else
            heap_at += all;
        if (gap && job.heap_fill >= 0)
            fill(q + sizeof(Block) + sz, gap);
        p = q + sizeof(Block);
    }
    Block *b = (Block *)p - 1;
    b->size  = sz;
    b->mark  = LIVE;
    return p;
}
static char *heap_base(void *p)
{
    Block *b = (Block *)p - 1;
    if ((b->mark & HIGH) == SKIP) {
        p = (char *)p - (b->mark & ~HIGH);
        b = (Block *)p - 1;
    }
    int c;
    if (b->mark != LIVE || b->size > HEAP_SIZE || size_class(b->size, c) != b->size)
        abort(); // freed twice, or overwritten
    return (char *)p;
}
static void heap_put(void *p)
{
    char *q  = heap_base(p);
    Block *b = (Block *)q - 1;
    int c;
    size_class(b->size, c);
    b->mark      = DEAD;
    *(char **)q  = free_list[c];
    free_list[c] = q;
}
static size_t heap_size(void *p)
{
    char *q = heap_base(p);
    return ((Block *)q - 1)->size - ((char *)p - q);
}
static void *heap_aligned(size_t a, size_t n)
{
    if (a <= 16)
        return heap_get(n);
    char *q = (char *)heap_get(n + a);
    if (!q)
        return nullptr;
    char *p = (char *)(((uintptr_t)q + a - 1) / a * a);
    if (p != q) {
        ((Block *)p - 1)->size = 0;
        ((Block *)p - 1)->mark = SKIP | (u64)(p - q);
    }
    return p;
}
static bool program()
{
    return active && !in_sim;
}
} // namespace sim

using namespace sim;

extern "C" {

// ---- memory
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static size_t libc_size(void *p)
{
    // the size word of glibc
    return (((size_t *)p)[-1] & ~(size_t)7) - 8;
}
void *malloc(size_t n)
{
    if (heap_dead)
        return bump(16, n);
    if (alloc_fails(n))
        return nullptr;
    if (!program())
        return __libc_malloc(n);
    void *p = heap_get(n);
    fill(p, n);
    return p;
}
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    if (heap_dead)
        return bump(16, n);
    if (alloc_fails(n))
        return nullptr;
    if (!program())
        return __libc_calloc(a, b);
    void *p = heap_get(n);
    if (p)
        memset(p, 0, n);
    return p;
}
void free(void *p)
{
    if (heap_dead || !p)
        return;
    if (ours(p))
        heap_put(p);
    else
        __libc_free(p);
}
size_t malloc_usable_size(void *p)
{
    if (!p)
        return 0;
    return ours(p) ? heap_size(p) : libc_size(p);
}
void *realloc(void *p, size_t n)
{
    if (heap_dead)
        return p ? nullptr : bump(16, n);
    if (n && alloc_fails(n))
        return nullptr;
    if (p && !n) {
        free(p);
        return nullptr;
    }
    if (!program() && !ours(p))
        return __libc_realloc(p, n);
    size_t old = p ? malloc_usable_size(p) : 0;
    if (p && ours(p) && n <= old && n >= old / 2)
        return p;
    void *q = program() ? heap_get(n) : __libc_malloc(n);
    if (!q)
        return nullptr;
    memcpy(q, p, n < old ? n : old);
    if (n > old)
        fill((char *)q + old, n - old);
    if (p)
        free(p);
    return q;
}
void *memalign(size_t a, size_t n)
{
    if (heap_dead)
        return bump(a, n);
    if (alloc_fails(n))
        return nullptr;
    if (!program())
        return __libc_memalign(a, n);
    void *p = heap_aligned(a, n);
    fill(p, n);
    return p;
}
void *aligned_alloc(size_t a, size_t n)
{
    return memalign(a, n);
}
int posix_memalign(void **p, size_t a, size_t n)
{
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}

// ---- clock
time_t time(time_t *t)
{
    time_t v = active ? (time_t)clock_read() : (time_t)EPOCH;
    if (t)
        *t = v;
    return v;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!active)
        return syscall(SYS_clock_gettime, id, ts);
    double t    = clock_read();
    ts->tv_sec  = (time_t)t;
    ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9);
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    double t    = active ? clock_read() : EPOCH;
    tv->tv_sec  = (time_t)t;
    tv->tv_usec = (long)((t - (double)tv->tv_sec) * 1e6);
    return 0;
}
clock_t clock(void)
{
    return (clock_t)((clock_read() - EPOCH) * CLOCKS_PER_SEC);
}
int nanosleep(const struct timespec *, struct timespec *)
{
    sync_event(30);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *)
{
    sync_event(30);
    return 0;
}
int usleep(useconds_t)
{
    sync_event(30);
    return 0;
}
unsigned sleep(unsigned)
{
    sync_event(30);
    return 0;
}
int sched_yield(void)
{
    sync_event(31);
    return 0;
}

// ---- processors, for those who do not ask the OpenMP runtime
int get_nprocs(void)
{
    return job.nprocs;
}
int get_nprocs_conf(void)
{
    return job.nprocs;
}
long sysconf(int name)
{
    if (active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
        return job.nprocs;
    static auto r = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    return r(name);
}
int sched_getaffinity(pid_t, size_t n, cpu_set_t *set)
{
    memset(set, 0, n);
    for (int i = 0; i < job.nprocs && (size_t)i < n * 8; i++)
        CPU_SET_S(i, n, set);
    return 0;
}

// ---- signals
typedef void (*handler_t)(int);
handler_t signal(int s, handler_t h)
{
    if (!active) {
        struct sigaction a, o;
        memset(&a, 0, sizeof a);
        a.sa_handler = h;
        static auto r = (int (*)(int, const struct sigaction *,
                                 struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
        r(s, &a, &o);
        return o.sa_handler;
    }
    handler_t o            = handlers[s].sa_handler;
    handlers[s].sa_handler = h;
    handlers[s].sa_flags   = 0;
    return o;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
    if (!active) {
        static auto r = (int (*)(int, const struct sigaction *,
                                 struct sigaction *))dlsym(RTLD_NEXT, "sigaction");
        return r(s, a, o);
    }
    if (o)
        *o = handlers[s];
    if (a)
        handlers[s] = *a;
    return 0;
}
handler_t __sysv_signal(int s, handler_t h)
{
    return signal(s, h);
}
int sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
    if (!active)
        return syscall(SYS_rt_sigprocmask, how, set, old, 8);
    sigset_t before = blocked_set;
    if (set) {
        for (int i = 1; i < 64; i++) {
            bool in = sigismember(set, i) == 1;
            if (how == SIG_BLOCK && in)
                sigaddset(&blocked_set, i);
            else if (how == SIG_UNBLOCK && in)
                sigdelset(&blocked_set, i);
            else if (how == SIG_SETMASK) {
                if (in)
                    sigaddset(&blocked_set, i);
                else
                    sigdelset(&blocked_set, i);
            }
        }
    }
    if (old)
        *old = before;
    if (pending && sigismember(&blocked_set, job.signo) != 1)
        deliver_signal();
    return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
    return sigprocmask(how, set, old);
}
int raise(int s)
{
    if (active && s != SIGABRT) {
        int k     = job.signo;
        job.signo = s;
        deliver_signal();
        job.signo = k;
        return 0;
    }
    return syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), s);
}

// ---- process
void _exit(int s)
{
    if (active)
        finish("exit", s & 0xff);
    syscall(SYS_exit_group, s);
    __builtin_unreachable();
}
void _Exit(int s)
{
    _exit(s);
}
void quick_exit(int s)
{
    _exit(s);
}
int execve(const char *, char *const *, char *const *)
{
    errno = ENOSYS;
    return -1;
}
}
