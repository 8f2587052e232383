// Fibers, the seeded scheduler, the OpenMP runtime on top of them, and the
// call-backs the compiler inserts at memory accesses (-fsanitize=thread).
#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

Job job;
bool active = false;
int in_sim  = 0;
int64_t countdown = INT64_MAX;
SchedStats stats;
std::vector<Decision> decisions;
std::map<std::pair<uintptr_t, uintptr_t>, u64> races;

static int64_t chunk = INT64_MAX; // what countdown was last set to
static u64 g_base    = 0;         // global events before the current chunk
static const int MAXF = 260;

enum Wait { W_NONE = 0, W_BARRIER, W_LOCK, W_JOIN, W_IDLE, W_ORDERED, W_FLAG, W_COPY, W_COND };

struct WorkShare {
    long next = 0, end = 0, incr = 1, chunk = 1;
    int mode = 0; // 0 static 1 dynamic 2 guided
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
    bool up = true;
    std::vector<long> static_pos;
    long seq_next = 0, ordered_cur = 0;
    std::vector<long> my_seq;
    int single_taken = 0;
    int sections = 0, sec_next = 0;
    void *copy_data = nullptr;
    bool copy_ready = false;
    int left        = 0;
    long static_n = 0;
    bool initialised = false;
};

struct Team {
    int n = 1;
    int arrived = 0;
    u64 bar_gen = 0;
    int running = 0;
    std::map<u64, WorkShare> ws;
};

struct Lock {
    int owner = -1;
    int depth = 0;
    std::vector<u64> vc;
};

struct Fiber {
    int id = 0;
    void *sp = nullptr;
    void *fs = nullptr;
    char *stack = nullptr;
    Wait wait = W_NONE;
    const void *wobj = nullptr;
    u64 wgen = 0;
    u64 local = 0; // events of this fiber before the current chunk
    Team *team = nullptr;
    int tid = 0;
    u64 ws_gen = 0;
    WorkShare *ws = nullptr;
    void (*fn)(void *) = nullptr;
    void *data = nullptr;
    int level = 0;
    u64 prio = 0;
    std::vector<u64> vc;
};

static Fiber *fibers[MAXF];
static int nfib = 0;
static Fiber *cur = nullptr;
static Rng rng;
static int icv_threads = 8;
static bool icv_dyn    = false; // team sizes left to the runtime
static Rng load_rng(1);          // how busy the machine is then
static std::vector<u64> pct_points;
static u64 low_prio = 0;
static u64 stall_until = 0;
static int stalled = -1;
static std::map<std::pair<int, u64>, int> replay_map;
static std::vector<std::vector<u64>> replay_at; // per fiber sorted
static u64 sync_ops = 0;
static uint32_t *racy_bits = nullptr;
static bool every_access = false;
static Hash shash;

int current_fiber()
{
    return cur ? cur->id : 0;
}

u64 events_now()
{
    return g_base + (u64)(chunk - countdown);
}

// fold the elapsed part of the chunk into the counters
static void flush_chunk()
{
    u64 d = (u64)(chunk - countdown);
    g_base += d;
    if (cur)
        cur->local += d;
    chunk = countdown = 0;
}

// ------------------------------------------------------------- contexts
extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    call sim_fiber_main
    ud2
    .cfi_endproc
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

static void set_fs(void *p)
{
    asm volatile("wrfsbase %0" ::"r"(p) : "memory");
}
static void *get_fs()
{
    void *p;
    asm volatile("rdfsbase %0" : "=r"(p));
    return p;
}

static bool runnable(Fiber *f)
{
    switch (f->wait) {
    case W_NONE:
        return true;
    case W_BARRIER:
        return ((Team *)f->wobj)->bar_gen != f->wgen;
    case W_LOCK:
        return ((Lock *)f->wobj)->owner < 0;
    case W_JOIN:
        return ((Team *)f->wobj)->running == 0;
    case W_ORDERED:
        return ((WorkShare *)f->wobj)->ordered_cur == (long)f->wgen;
    case W_FLAG:
        return *(const char *)f->wobj != 0;
    case W_COPY:
        return ((WorkShare *)f->wobj)->copy_ready;
    case W_COND:
        return *(const u64 *)f->wobj != f->wgen;
    case W_IDLE:
        return false;
    }
    return false;
}

static int runnable_list(int *out)
{
    int n = 0;
    for (int i = 0; i < nfib; i++)
        if (runnable(fibers[i]))
            out[n++] = i;
    return n;
}

static void switch_to(Fiber *f)
{
    if (f == cur)
        return;
    Fiber *o = cur;
    shash.add(((u64)o->id << 56) ^ ((u64)f->id << 48) ^ o->local);
    cur = f;
    set_fs(f->fs);
    sim_switch(&o->sp, f->sp);
}

static u64 draw_quantum()
{
    double q = job.quantum;
    double r = rng.real();
    if (r < 0.5)
        return 1 + rng.below((u64)(2 * q) + 1);
    if (r < 0.8)
        return 1 + rng.below((u64)(q / 5) + 2);
    return 1 + rng.below((u64)(10 * q) + 1);
}

// choose the next fiber at a point where `cur` cannot go on (blocked) or may
// be preempted.
static Fiber *choose(bool blocked)
{
    int list[MAXF];
    int n = runnable_list(list);
    if (n == 0)
        return nullptr;
    const std::string &p = job.policy;
    if (p == "replay") {
        auto it = replay_map.find({cur->id, cur->local});
        if (it != replay_map.end()) {
            for (int i = 0; i < n; i++)
                if (list[i] == it->second)
                    return fibers[list[i]];
        }
        if (!blocked)
            return cur;
        // default: next one round robin
        for (int i = 0; i < n; i++)
            if (list[i] > cur->id)
                return fibers[list[i]];
        return fibers[list[0]];
    }
    if (p == "none") {
        if (!blocked)
            return cur;
        for (int i = 0; i < n; i++)
            if (list[i] > cur->id)
                return fibers[list[i]];
        return fibers[list[0]];
    }
    if (p == "pct") {
        Fiber *b = fibers[list[0]];
        for (int i = 1; i < n; i++)
            if (fibers[list[i]]->prio > b->prio)
                b = fibers[list[i]];
        return b;
    }
    if (stalled >= 0 && g_base < stall_until && n > 1) {
        int m = 0;
        for (int i = 0; i < n; i++)
            if (list[i] != stalled)
                list[m++] = list[i];
        n = m;
    }
    if (n > 1 && !blocked) {
        // prefer somebody else
        int m = 0;
        int l2[MAXF];
        for (int i = 0; i < n; i++)
            if (list[i] != cur->id)
                l2[m++] = list[i];
        return fibers[l2[rng.below(m)]];
    }
    return fibers[list[rng.below(n)]];
}

static bool stall_policy()
{
    return job.policy == "stall";
}

// Set the next slow-path point.  Counters have been flushed.
static void rearm()
{
    int64_t c = INT64_MAX / 4;
    bool par  = cur && cur->team && cur->team->n > 1;
    auto upto = [&](u64 g) {
        if (g > g_base)
            c = std::min(c, (int64_t)(g - g_base));
    };
    if (job.sig_event)
        upto(job.sig_event);
    if (job.sig_event2)
        upto(job.sig_event2);
    if (job.crash_event)
        upto(job.crash_event);
    upto(job.max_events);
    if (par) {
        const std::string &p = job.policy;
        if (every_access)
            c = 1;
        else if (p == "rand" || p == "stall")
            c = std::min(c, (int64_t)draw_quantum());
        else if (p == "pct") {
            for (u64 q : pct_points)
                if (q > g_base) {
                    upto(q);
                    break;
                }
        }
        else if (p == "replay") {
            if (cur->id < (int)replay_at.size()) {
                auto &v = replay_at[cur->id];
                auto it = std::upper_bound(v.begin(), v.end(), cur->local);
                if (it != v.end())
                    c = std::min(c, (int64_t)(*it - cur->local));
            }
        }
        else if (p == "sync" || p == "race")
            c = std::min(c, (int64_t)(INT64_MAX / 4));
    }
    if (c < 1)
        c = 1;
    chunk = countdown = c;
}

static void record(Fiber *to)
{
    InSim s;
    decisions.push_back({cur->id, cur->local, to->id});
}

static void rearm_after_switch()
{
    // we are now running as `cur` again
    rearm();
}

// preemption: counters flushed
static void preempt()
{
    Fiber *f = choose(false);
    if (f && f != cur) {
        stats.preemptions++;
        record(f);
        switch_to(f);
    }
}

static void check_limits()
{
    if (g_base >= job.max_events)
        finish("event-limit", 0);
    if (job.crash_event && g_base >= job.crash_event)
        finish("crash", 0);
    if (job.sig_event && g_base >= job.sig_event) {
        job.sig_event = 0;
        rearm();
        deliver_signal();
        flush_chunk();
    }
    if (job.sig_event2 && g_base >= job.sig_event2) {
        job.sig_event2 = 0;
        rearm();
        deliver_signal();
        flush_chunk();
    }
}

// ------------------------------------------------------------- race scout
struct Cell {
    uintptr_t wpc = 0;
    int wt        = -1;
    u64 wc        = 0;
    uintptr_t rpc[16];
    u64 rc[16];
    bool watomic = false, ratomic[16];
    Cell()
    {
        memset(rc, 0, sizeof rc);
        memset(rpc, 0, sizeof rpc);
        memset(ratomic, 0, sizeof ratomic);
    }
};
static std::unordered_map<uintptr_t, Cell> *shadow = nullptr;
static std::unordered_map<uintptr_t, std::vector<u64>> *avc = nullptr;

static void vc_join(std::vector<u64> &a, const std::vector<u64> &b)
{
    InSim s;
    if (a.size() < b.size())
        a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++)
        a[i] = std::max(a[i], b[i]);
}
static void vc_tick()
{
    InSim s;
    if (cur->vc.size() <= (size_t)cur->id)
        cur->vc.resize(cur->id + 1, 0);
    cur->vc[cur->id]++;
}

static void scout_access(uintptr_t addr, unsigned size, int kind, uintptr_t pc)
{
    // kind: 0 read 1 write 2 atomic
    InSim s;
    Fiber *f = cur;
    if (f->id >= 16 || !shadow)
        return;
    // own stack
    for (int i = 0; i < nfib; i++)
        if (fibers[i]->stack && addr >= (uintptr_t)fibers[i]->stack &&
            addr < (uintptr_t)fibers[i]->stack + (8u << 20)) {
            if (i == f->id)
                return;
        }
    uintptr_t a0 = addr >> 2, a1 = (addr + size - 1) >> 2;
    for (uintptr_t a = a0; a <= a1; a++) {
        Cell &c = (*shadow)[a];
        auto known = [&](int t, u64 k) {
            return t == f->id || (t < (int)f->vc.size() && f->vc[t] >= k);
        };
        bool at = kind == 2;
        if (c.wt >= 0 && !known(c.wt, c.wc) && !(at && c.watomic))
            races[{c.wpc, pc}]++;
        if (kind >= 1) {
            for (int t = 0; t < 16; t++)
                if (c.rc[t] && !known(t, c.rc[t]) && !(at && c.ratomic[t]))
                    races[{c.rpc[t], pc}]++;
            c.wt = f->id;
            c.wc = f->id < (int)f->vc.size() ? f->vc[f->id] : 0;
            c.wpc = pc;
            c.watomic = at;
        }
        if (kind != 1) {
            c.rc[f->id]  = f->id < (int)f->vc.size() ? f->vc[f->id] : 0;
            c.rpc[f->id] = pc;
            c.ratomic[f->id] = at;
        }
    }
    if (kind == 2) {
        auto &v = (*avc)[addr];
        vc_join(f->vc, v);
        vc_join(v, f->vc);
        vc_tick();
    }
}

// ------------------------------------------------------------- slow path
void slow_event(uintptr_t addr, unsigned size, int kind, uintptr_t pc)
{
    if (!active || in_sim) {
        // not counted
        countdown++;
        return;
    }
    flush_chunk();
    check_limits();
    bool par = cur->team && cur->team->n > 1;
    if (par) {
        if (every_access) {
            if (job.scout)
                scout_access(addr, size, kind, pc);
            if (job.policy == "race") {
                u64 h = (pc * 0x9E3779B97F4A7C15ull) >> 44;
                if (racy_bits[h >> 5] & (1u << (h & 31)))
                    if (rng.real() < job.prob)
                        preempt();
            }
            else if (job.policy != "none") {
                static u64 left = 0;
                if (left == 0) {
                    left = draw_quantum();
                    preempt();
                }
                else
                    left--;
            }
        }
        else
            preempt();
        if (stall_policy() && g_base >= stall_until) {
            stall_until = g_base + (u64)(job.quantum * (5 + rng.below(60)));
            stalled     = job.victim >= 0 ? job.victim : (int)rng.below(nfib);
        }
        if (job.policy == "pct") {
            // a change point: lower the running fiber
            for (u64 q : pct_points)
                if (q == g_base) {
                    cur->prio = low_prio ? --low_prio : 0;
                    preempt();
                }
        }
    }
    rearm_after_switch();
}

// GOMP and lock operations: one event, and a preferred preemption point
void sync_event(int what)
{
    (void)what;
    if (!active || in_sim)
        return;
    stats.syncs++;
    sync_ops++;
    countdown--;
    flush_chunk();
    check_limits();
    if (job.sig_sync >= 0 && sync_ops == (u64)job.sig_sync + 1) {
        rearm();
        deliver_signal();
        flush_chunk();
    }
    bool par = cur->team && cur->team->n > 1;
    if (par) {
        const std::string &p = job.policy;
        bool pre = false;
        if (p == "replay")
            pre = replay_map.count({cur->id, cur->local}) != 0;
        else if (p == "sync" || p == "race")
            pre = rng.real() < (p == "sync" ? job.prob : 0.1);
        else if (p == "rand" || p == "stall")
            pre = rng.real() < 0.1;
        else if (p == "pct")
            pre = true;
        if (pre)
            preempt();
    }
    rearm();
    if (par && job.policy == "sync" && rng.real() < job.prob) {
        // preempt a little after the operation
        chunk = countdown = std::min<int64_t>(countdown, 1 + rng.below(60));
    }
}

[[noreturn]] static void deadlock()
{
    finish("deadlock", 0);
}

// block until runnable(cur) with the given wait
static void block(Wait w, const void *obj, u64 gen)
{
    cur->wait = w;
    cur->wobj = obj;
    cur->wgen = gen;
    flush_chunk();
    if (!runnable(cur) || job.policy == "rand" || job.policy == "sync" ||
        job.policy == "replay" || job.policy == "race" ||
        job.policy == "stall") {
        bool blocked = !runnable(cur);
        if (blocked)
            cur->local++, g_base++; // make the decision key unique
        Fiber *f = blocked ? choose(true) : cur;
        if (!f)
            deadlock();
        if (blocked)
            stats.blocks++;
        if (f != cur) {
            record(f);
            switch_to(f);
        }
    }
    cur->wait = W_NONE;
    rearm();
}

// ------------------------------------------------------------- fibers
static Team main_team;
extern "C" void sim_fiber_main();

static size_t pthread_size()
{
    static size_t s = 0;
    if (!s) {
        uint32_t *p = (uint32_t *)dlsym(RTLD_DEFAULT, "_thread_db_sizeof_pthread");
        s           = p ? *p : 2304;
    }
    return s;
}

static void *new_tls()
{
    typedef void *(*alloc_t)(void *);
    static alloc_t al = (alloc_t)dlsym(RTLD_DEFAULT, "_dl_allocate_tls");
    if (!al)
        fatal("_dl_allocate_tls not found");
    char *t    = (char *)al(nullptr);
    char *self = (char *)get_fs();
    if (!t)
        fatal("no TLS");
    void *dtv = *(void **)(t + 8);
    // header (stack guard, pointer guard, ...)
    size_t n = std::min<size_t>(pthread_size(), 0x300);
    std::vector<char> keep(self, self + n);
    memcpy(t, keep.data(), n);
    *(void **)(t)      = t;
    *(void **)(t + 8)  = dtv;
    *(void **)(t + 16) = t;
    // lists and the robust mutex head live in the header: make them point at
    // themselves instead of the main thread's
    for (size_t i = 0x40; i + 8 <= n; i += 8) {
        uintptr_t v = *(uintptr_t *)(t + i);
        if (v >= (uintptr_t)self && v < (uintptr_t)self + pthread_size())
            *(uintptr_t *)(t + i) = v - (uintptr_t)self + (uintptr_t)t;
    }
    return t;
}

static Fiber *new_fiber()
{
    if (nfib >= MAXF)
        fatal("too many threads");
    Fiber *f = new Fiber;
    f->id    = nfib;
    size_t sz = 8u << 20;
    f->stack  = (char *)mmap((void *)(0x300000000000ull + 2 * sz * nfib), sz, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED)
        fatal("no stack");
    mprotect(f->stack, 4096, PROT_NONE);
    f->fs       = new_tls();
    void **sp   = (void **)(f->stack + sz - 256);
    // layout popped by sim_switch: mxcsr/fcw, r15 r14 r13 r12 rbx rbp, ret
    void **p = sp;
    *--p     = (void *)&sim_tramp;
    for (int i = 0; i < 6; i++)
        *--p = nullptr;
    *--p = nullptr;
    ((uint32_t *)p)[0] = 0x1f80;
    ((uint16_t *)p)[2] = 0x037f;
    f->sp              = p;
    f->wait            = W_IDLE;
    fibers[nfib++]     = f;
    f->prio            = 1000 + rng.below(1000000);
    stats.max_fibers   = nfib;
    return f;
}

extern "C" void sim_fiber_main()
{
    // once per new fiber: locale tables of this "thread"
    typedef void (*v_t)();
    static v_t ct = (v_t)dlsym(RTLD_DEFAULT, "__ctype_init");
    if (ct)
        ct();
    for (;;) {
        rearm();
        cur->fn(cur->data);
        // done
        flush_chunk();
        if (job.scout)
            vc_tick();
        cur->team->running--;
        cur->wait = W_IDLE;
        cur->local++, g_base++;
        Fiber *f = choose(true);
        if (!f)
            deadlock();
        stats.blocks++;
        record(f);
        switch_to(f);
    }
}

void sched_init()
{
    rng = Rng(job.seed);
    Fiber *f     = new Fiber;
    f->id        = 0;
    f->fs        = get_fs();
    f->team      = nullptr;
    fibers[0]    = f;
    nfib         = 1;
    cur          = f;
    f->prio      = 1000 + rng.below(1000000);
    low_prio     = 900;
    icv_threads  = job.nprocs;
    icv_dyn      = false;
    load_rng     = Rng(job.seed * 31 + 7);
    for (auto &e : job.env)
        if (e.first == "OMP_NUM_THREADS") {
            int v = atoi(e.second.c_str());
            if (v > 0)
                icv_threads = v;
        }
    if (job.policy == "pct") {
        for (u64 i = 0; i < job.depth; i++)
            pct_points.push_back(1 + rng.below(job.est_events));
        std::sort(pct_points.begin(), pct_points.end());
    }
    for (auto &d : job.replay) {
        replay_map[{d.from, d.at}] = d.to;
        if ((int)replay_at.size() <= d.from)
            replay_at.resize(d.from + 1);
        replay_at[d.from].push_back(d.at);
    }
    for (auto &v : replay_at)
        std::sort(v.begin(), v.end());
    every_access = job.scout || job.policy == "race";
    if (job.policy == "race") {
        racy_bits = (uint32_t *)calloc(1 << 15, 4);
        for (u64 pc : job.pcs) {
            u64 h = (pc * 0x9E3779B97F4A7C15ull) >> 44;
            racy_bits[h >> 5] |= 1u << (h & 31);
        }
    }
    if (job.scout) {
        shadow = new std::unordered_map<uintptr_t, Cell>;
        avc    = new std::unordered_map<uintptr_t, std::vector<u64>>;
    }
    chunk = countdown = 0;
    rearm();
}

void sched_account()
{
    stats.events = events_now();
    stats.hash   = shash.h;
}

int team_size_now()
{
    return cur && cur->team ? cur->team->n : 1;
}

// ------------------------------------------------------------- team ops
static void team_parallel(void (*fn)(void *), void *data, unsigned nt)
{
    if (!active || !cur) {
        fn(data);
        return;
    }
    if (cur->team) {
        // nested: a team of one
        Team t;
        Team *st      = cur->team;
        int stid      = cur->tid;
        u64 sg        = cur->ws_gen;
        WorkShare *sw = cur->ws;
        cur->team     = &t;
        cur->tid      = 0;
        cur->ws_gen   = 0;
        cur->level++;
        fn(data);
        cur->level--;
        cur->team   = st;
        cur->tid    = stid;
        cur->ws_gen = sg;
        cur->ws     = sw;
        return;
    }
    int n = nt ? (int)nt : icv_threads;
    // The runtime takes off what other programs on the machine keep busy
    if (icv_dyn)
        n = std::min(n, 1 + (int)load_rng.below(job.nprocs));
    if (n > MAXF - 4)
        n = MAXF - 4;
    {
        InSim s;
        stats.regions++;
        stats.max_team = std::max(stats.max_team, n);
        stats.team_sizes[n]++;
        while (nfib < n)
            new_fiber();
    }
    Team *t;
    {
        InSim s;
        t = new Team;
    }
    t->n       = n;
    t->running = n - 1;
    flush_chunk();
    g_base++, cur->local++;
    if (job.scout) {
        InSim s;
        shadow->clear();
        avc->clear();
        cur->vc.assign(n, 0);
        cur->vc[0] = 1;
    }
    for (int i = 0; i < n; i++) {
        Fiber *f  = fibers[i];
        f->team   = t;
        f->tid    = i;
        f->ws_gen = 0;
        f->ws     = nullptr;
        f->level  = 1;
        if (i) {
            f->fn   = fn;
            f->data = data;
            f->wait = W_NONE;
            if (job.scout) {
                InSim s;
                f->vc.assign(n, 0);
                f->vc[i] = 1;
            }
        }
    }
    rearm();
    sync_event(1);
    fn(data);
    sync_event(2);
    if (t->running)
        block(W_JOIN, t, 0);
    for (int i = 0; i < n; i++) {
        fibers[i]->team  = nullptr;
        fibers[i]->level = 0;
    }
    flush_chunk();
    rearm();
    InSim s;
    delete t;
}

static WorkShare *next_ws()
{
    InSim s;
    Team *t = cur->team;
    if (!t) {
        // orphaned: a private team of one
        static Team &solo = *new Team;
        solo.n       = 1;
        WorkShare &w = solo.ws[cur->ws_gen++];
        w            = WorkShare();
        cur->ws      = &w;
        if (solo.ws.size() > 64)
            solo.ws.erase(solo.ws.begin());
        return &w;
    }
    u64 g        = cur->ws_gen++;
    WorkShare &w = t->ws[g];
    cur->ws      = &w;
    if (w.left == 0 && !w.initialised)
        w.left = t->n;
    return &w;
}

static void done_ws()
{
    InSim s;
    Team *t = cur->team;
    if (!t)
        return;
    WorkShare *w = cur->ws;
    if (w && --w->left <= 0) {
        for (auto it = t->ws.begin(); it != t->ws.end(); ++it)
            if (&it->second == w) {
                t->ws.erase(it);
                break;
            }
    }
    cur->ws = nullptr;
}

static void team_barrier()
{
    Team *t = cur ? cur->team : nullptr;
    if (!t || t->n <= 1)
        return;
    sync_event(3);
    if (job.scout) {
        // gather on the team
        InSim s;
        auto &v = (*avc)[(uintptr_t)t];
        vc_join(v, cur->vc);
    }
    u64 g = t->bar_gen;
    if (++t->arrived == t->n) {
        t->arrived = 0;
        if (job.scout) {
            InSim s;
            auto v = (*avc)[(uintptr_t)t];
            for (int i = 0; i < t->n; i++) {
                vc_join(fibers[i]->vc, v);
                if (fibers[i]->vc.size() <= (size_t)i)
                    fibers[i]->vc.resize(i + 1, 0);
                fibers[i]->vc[i]++;
            }
        }
        t->bar_gen++;
    }
    else
        block(W_BARRIER, t, g);
    sync_event(4);
}

static void lock(Lock *l)
{
    if (!active || !cur)
        return;
    sync_event(5);
    while (l->owner >= 0)
        block(W_LOCK, l, 0);
    l->owner = cur->id;
    l->depth = 1;
    if (job.scout)
        vc_join(cur->vc, l->vc);
    sync_event(6);
}
static void unlock(Lock *l)
{
    if (!active || !cur)
        return;
    sync_event(7);
    l->owner = -1;
    if (job.scout) {
        vc_join(l->vc, cur->vc);
        vc_tick();
    }
    sync_event(8);
}

static Lock default_critical, atomic_lock;
static std::map<void *, Lock> *named = nullptr;
static Lock *named_lock(void *p)
{
    InSim s;
    if (!named)
        named = new std::map<void *, Lock>;
    return &(*named)[p];
}
} // namespace sim

using namespace sim;

// ===================================================================== GOMP
extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned)
{
    team_parallel(fn, data, nt);
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt,
                                  unsigned)
{
    team_parallel(fn, data, nt);
    return nt;
}
void GOMP_barrier(void)
{
    team_barrier();
}
bool GOMP_barrier_cancel(void)
{
    team_barrier();
    return false;
}
bool GOMP_cancel(int, bool)
{
    return false;
}
bool GOMP_cancellation_point(int)
{
    return false;
}
bool GOMP_single_start(void)
{
    sync_event(9);
    WorkShare *w = next_ws();
    w->initialised = true;
    bool r       = w->single_taken == 0;
    w->single_taken = 1;
    done_ws();
    return r;
}
void *GOMP_single_copy_start(void)
{
    sync_event(9);
    WorkShare *w = next_ws();
    w->initialised = true;
    if (!w->single_taken) {
        w->single_taken = 1;
        return nullptr;
    }
    while (!w->copy_ready)
        block(W_COPY, w, 0);
    void *d = w->copy_data;
    done_ws();
    return d;
}
void GOMP_single_copy_end(void *data)
{
    WorkShare *w  = cur->ws;
    w->copy_data  = data;
    w->copy_ready = true;
    done_ws();
    team_barrier();
}
void GOMP_scope_start(uintptr_t *)
{
}
void GOMP_critical_start(void)
{
    lock(&default_critical);
}
void GOMP_critical_end(void)
{
    unlock(&default_critical);
}
void GOMP_critical_name_start(void **p)
{
    lock(named_lock(p));
}
void GOMP_critical_name_end(void **p)
{
    unlock(named_lock(p));
}
void GOMP_atomic_start(void)
{
    lock(&atomic_lock);
}
void GOMP_atomic_end(void)
{
    unlock(&atomic_lock);
}

// ---- loops
static bool ws_next(WorkShare *w, long *istart, long *iend)
{
    int tid = cur->team ? cur->tid : 0;
    int n   = cur->team ? cur->team->n : 1;
    InSim s_;
    if ((int)w->my_seq.size() < n)
        w->my_seq.resize(n, -1);
    // ordered bookkeeping: previous chunk of this thread is over
    if (w->mode == 0) {
        if ((int)w->static_pos.size() < n)
            w->static_pos.resize(n, 0);
        long total =
            w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                        : (w->next - w->end - w->incr - 1) / (-w->incr);
        if (total < 0)
            total = 0;
        if (w->chunk <= 0) {
            if (w->static_pos[tid]++)
                return false;
            long q = total / n, r = total % n;
            long lo = tid * q + std::min<long>(tid, r);
            long hi = lo + q + (tid < r);
            if (lo >= hi)
                return false;
            *istart = w->next + lo * w->incr;
            *iend   = w->next + hi * w->incr;
            w->my_seq[tid] = tid;
            return true;
        }
        long k  = w->static_pos[tid]++;
        long lo = (k * n + tid) * w->chunk;
        if (lo >= total)
            return false;
        long hi = std::min(total, lo + w->chunk);
        *istart = w->next + lo * w->incr;
        *iend   = w->next + hi * w->incr;
        w->my_seq[tid] = k * n + tid;
        return true;
    }
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                            : (w->next - w->end - w->incr - 1) / (-w->incr);
    if (left <= 0)
        return false;
    long c = std::max<long>(1, w->chunk);
    if (w->mode == 2)
        c = std::max(c, (left + n - 1) / n);
    c       = std::min(c, left);
    *istart = w->next;
    w->next += c * w->incr;
    *iend = w->next;
    w->my_seq[tid] = w->seq_next++;
    return true;
}
static bool ws_start(int mode, long start, long end, long incr, long chunk,
                     long *is, long *ie)
{
    sync_event(10);
    WorkShare *w = next_ws();
    if (!w->initialised) {
        w->initialised = true;
        w->next        = start;
        w->end         = end;
        w->incr        = incr;
        w->chunk       = chunk;
        w->mode        = mode;
    }
    return ws_next(w, is, ie);
}
#define LOOP(name, mode)                                                       \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a,     \
                                  long *b)                                     \
    {                                                                          \
        return ws_start(mode, s, e, i, c, a, b);                               \
    }                                                                          \
    bool GOMP_loop_##name##_next(long *a, long *b)                             \
    {                                                                          \
        sync_event(11);                                                        \
        return ws_next(cur->ws, a, b);                                         \
    }                                                                          \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt,   \
                                   long s, long e, long i, long c, unsigned);
LOOP(static, 0)
LOOP(dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_dynamic, 1)
LOOP(nonmonotonic_guided, 2)
#define LOOPR(name)                                                            \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b)    \
    {                                                                          \
        return ws_start(1, s, e, i, 1, a, b);                                  \
    }                                                                          \
    bool GOMP_loop_##name##_next(long *a, long *b)                             \
    {                                                                          \
        sync_event(11);                                                        \
        return ws_next(cur->ws, a, b);                                         \
    }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

struct PLoop {
    void (*fn)(void *);
    void *d;
    int mode;
    long s, e, i, c;
};
static void ploop_run(void *p)
{
    PLoop *l     = (PLoop *)p;
    WorkShare *w = next_ws();
    if (!w->initialised) {
        w->initialised = true;
        w->next        = l->s;
        w->end         = l->e;
        w->incr        = l->i;
        w->chunk       = l->c;
        w->mode        = l->mode;
    }
    l->fn(l->d);
}
#define PLOOP(name, mode)                                                      \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt,   \
                                   long s, long e, long i, long c, unsigned)   \
    {                                                                          \
        PLoop l = {fn, d, mode, s, e, i, c};                                   \
        team_parallel(ploop_run, &l, nt);                                      \
    }
PLOOP(static, 0)
PLOOP(dynamic, 1)
PLOOP(guided, 2)
PLOOP(nonmonotonic_dynamic, 1)
PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name)                                                           \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt,   \
                                   long s, long e, long i, unsigned)           \
    {                                                                          \
        PLoop l = {fn, d, 1, s, e, i, 1};                                      \
        team_parallel(ploop_run, &l, nt);                                      \
    }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)

// unsigned long long loops
static bool ull_start(bool up, int mode, unsigned long long s,
                      unsigned long long e, unsigned long long i,
                      unsigned long long c, unsigned long long *a,
                      unsigned long long *b)
{
    (void)up;
    long x, y;
    bool r = ws_start(mode, (long)s, (long)e, (long)i, (long)c, &x, &y);
    *a     = (unsigned long long)x;
    *b     = (unsigned long long)y;
    return r;
}
#define ULOOP(name, mode)                                                      \
    bool GOMP_loop_ull_##name##_start(                                         \
        bool up, unsigned long long s, unsigned long long e,                   \
        unsigned long long i, unsigned long long c, unsigned long long *a,     \
        unsigned long long *b)                                                 \
    {                                                                          \
        return ull_start(up, mode, s, e, i, c, a, b);                          \
    }                                                                          \
    bool GOMP_loop_ull_##name##_next(unsigned long long *a,                    \
                                     unsigned long long *b)                    \
    {                                                                          \
        sync_event(11);                                                        \
        return ws_next(cur->ws, (long *)a, (long *)b);                         \
    }
ULOOP(static, 0)
ULOOP(dynamic, 1)
ULOOP(guided, 2)
ULOOP(nonmonotonic_dynamic, 1)
ULOOP(nonmonotonic_guided, 2)
#define ULOOPR(name)                                                           \
    bool GOMP_loop_ull_##name##_start(                                         \
        bool up, unsigned long long s, unsigned long long e,                   \
        unsigned long long i, unsigned long long *a, unsigned long long *b)    \
    {                                                                          \
        return ull_start(up, 1, s, e, i, 1, a, b);                             \
    }                                                                          \
    bool GOMP_loop_ull_##name##_next(unsigned long long *a,                    \
                                     unsigned long long *b)                    \
    {                                                                          \
        sync_event(11);                                                        \
        return ws_next(cur->ws, (long *)a, (long *)b);                         \
    }
ULOOPR(runtime)
ULOOPR(nonmonotonic_runtime)
ULOOPR(maybe_nonmonotonic_runtime)

void GOMP_loop_end(void)
{
    done_ws();
    team_barrier();
}
bool GOMP_loop_end_cancel(void)
{
    done_ws();
    team_barrier();
    return false;
}
void GOMP_loop_end_nowait(void)
{
    sync_event(12);
    done_ws();
}

// ordered loops: chunks pass the ordered token in sequence
static void ordered_pass(WorkShare *w)
{
    int tid = cur->team ? cur->tid : 0;
    if (tid < (int)w->my_seq.size() && w->my_seq[tid] >= 0) {
        while (w->ordered_cur != w->my_seq[tid])
            block(W_ORDERED, w, w->my_seq[tid]);
        w->ordered_cur++;
        w->my_seq[tid] = -1;
    }
}
#define OLOOP(name, mode)                                                      \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c,      \
                                          long *a, long *b)                    \
    {                                                                          \
        return ws_start(mode, s, e, i, mode == 0 && c <= 0 ? 1 : c, a, b);     \
    }                                                                          \
    bool GOMP_loop_ordered_##name##_next(long *a, long *b)                     \
    {                                                                          \
        sync_event(11);                                                        \
        ordered_pass(cur->ws);                                                 \
        return ws_next(cur->ws, a, b);                                         \
    }
OLOOP(static, 0)
OLOOP(dynamic, 1)
OLOOP(guided, 2)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long *a, long *b)
{
    return ws_start(1, s, e, i, 1, a, b);
}
bool GOMP_loop_ordered_runtime_next(long *a, long *b)
{
    sync_event(11);
    ordered_pass(cur->ws);
    return ws_next(cur->ws, a, b);
}
void GOMP_ordered_start(void)
{
    sync_event(13);
    WorkShare *w = cur->ws;
    int tid      = cur->team ? cur->tid : 0;
    if (!w || tid >= (int)w->my_seq.size())
        return;
    while (w->my_seq[tid] >= 0 && w->ordered_cur != w->my_seq[tid])
        block(W_ORDERED, w, w->my_seq[tid]);
}
void GOMP_ordered_end(void)
{
    sync_event(14);
}
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long *a,
                     long *b, uintptr_t *, void **)
{
    int m = (sched & 0x7fffffff) == 1 ? 0 : (sched & 0x7fffffff) == 3 ? 2 : 1;
    if (a == nullptr) {
        WorkShare *w   = next_ws();
        w->initialised = true;
        return true;
    }
    return ws_start(m, s, e, i, c, a, b);
}

// ---- sections
unsigned GOMP_sections_next(void)
{
    sync_event(15);
    WorkShare *w = cur->ws;
    if (w->sec_next < w->sections)
        return ++w->sec_next;
    return 0;
}
unsigned GOMP_sections_start(unsigned n)
{
    WorkShare *w = next_ws();
    if (!w->initialised) {
        w->initialised = true;
        w->sections    = n;
    }
    return GOMP_sections_next();
}
void GOMP_sections_end(void)
{
    done_ws();
    team_barrier();
}
bool GOMP_sections_end_cancel(void)
{
    done_ws();
    team_barrier();
    return false;
}
void GOMP_sections_end_nowait(void)
{
    done_ws();
}
struct PSec {
    void (*fn)(void *);
    void *d;
    unsigned n;
};
static void psec_run(void *p)
{
    PSec *s      = (PSec *)p;
    WorkShare *w = next_ws();
    if (!w->initialised) {
        w->initialised = true;
        w->sections    = s->n;
    }
    s->fn(s->d);
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt,
                            unsigned count, unsigned)
{
    PSec s = {fn, d, count};
    team_parallel(psec_run, &s, nt);
}

// ---- tasks: undeferred
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *),
               long size, long align, bool, unsigned, void **, int, void *)
{
    sync_event(16);
    if (cpy) {
        std::vector<char> buf(size + align);
        char *p = (char *)(((uintptr_t)buf.data() + align - 1) &
                           ~(uintptr_t)(align - 1));
        cpy(p, data);
        fn(p);
    }
    else if (size > 0) {
        std::vector<char> buf(size + align);
        char *p = (char *)(((uintptr_t)buf.data() + align - 1) &
                           ~(uintptr_t)(align - 1));
        memcpy(p, data, size);
        fn(p);
    }
    else
        fn(data);
}
void GOMP_taskwait(void)
{
    sync_event(17);
}
void GOMP_taskyield(void)
{
    sync_event(17);
}
void GOMP_taskgroup_start(void)
{
}
void GOMP_taskgroup_end(void)
{
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *),
                   long size, long align, unsigned, unsigned long, int,
                   long start, long end, long step)
{
    sync_event(16);
    (void)step;
    std::vector<char> buf(size + align);
    char *p = (char *)(((uintptr_t)buf.data() + align - 1) &
                       ~(uintptr_t)(align - 1));
    if (cpy)
        cpy(p, data);
    else
        memcpy(p, data, size);
    ((long *)p)[0] = start;
    ((long *)p)[1] = end;
    fn(p);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data,
                       void (*cpy)(void *, void *), long size, long align,
                       unsigned f, unsigned long nt, int pr,
                       unsigned long long start, unsigned long long end,
                       unsigned long long step)
{
    GOMP_taskloop(fn, data, cpy, size, align, f, nt, pr, (long)start, (long)end,
                  (long)step);
}

// ---- omp_*
int omp_get_thread_num(void)
{
    return cur && cur->team ? cur->tid : 0;
}
int omp_get_num_threads(void)
{
    return cur && cur->team ? cur->team->n : 1;
}
int omp_get_max_threads(void)
{
    return icv_threads;
}
int omp_get_num_procs(void)
{
    return job.nprocs;
}
void omp_set_num_threads(int n)
{
    icv_threads = n > 0 ? n : 1;
}
int omp_in_parallel(void)
{
    return cur && cur->team && cur->team->n > 1;
}
double omp_get_wtime(void)
{
    return clock_read();
}
double omp_get_wtick(void)
{
    return 1e-9;
}
void omp_set_dynamic(int on)
{
    icv_dyn = on != 0;
}
int omp_get_dynamic(void)
{
    return icv_dyn;
}
void omp_set_nested(int)
{
}
int omp_get_nested(void)
{
    return 0;
}
int omp_get_level(void)
{
    return cur ? cur->level : 0;
}
int omp_get_active_level(void)
{
    return omp_in_parallel();
}
int omp_get_thread_limit(void)
{
    return 256;
}
int omp_get_max_active_levels(void)
{
    return 1;
}
void omp_set_max_active_levels(int)
{
}
int omp_get_ancestor_thread_num(int l)
{
    return l == 0 ? 0 : omp_get_thread_num();
}
int omp_get_team_size(int l)
{
    return l == 0 ? 1 : omp_get_num_threads();
}
void omp_set_schedule(int, int)
{
}
void omp_get_schedule(int *k, int *c)
{
    *k = 2;
    *c = 1;
}
int omp_in_final(void)
{
    return 0;
}
int omp_get_cancellation(void)
{
    return 0;
}
int omp_get_proc_bind(void)
{
    return 0;
}
static std::map<void *, Lock> *omp_locks = nullptr;
static Lock *ol(void *p)
{
    InSim s;
    if (!omp_locks)
        omp_locks = new std::map<void *, Lock>;
    return &(*omp_locks)[p];
}
void omp_init_lock(void *p)
{
    *ol(p) = Lock();
}
void omp_init_lock_with_hint(void *p, int)
{
    *ol(p) = Lock();
}
void omp_destroy_lock(void *)
{
}
void omp_set_lock(void *p)
{
    lock(ol(p));
}
void omp_unset_lock(void *p)
{
    unlock(ol(p));
}
int omp_test_lock(void *p)
{
    sync_event(5);
    Lock *l = ol(p);
    if (l->owner >= 0)
        return 0;
    l->owner = cur->id;
    if (job.scout)
        vc_join(cur->vc, l->vc);
    return 1;
}
void omp_init_nest_lock(void *p)
{
    *ol(p) = Lock();
}
void omp_destroy_nest_lock(void *)
{
}
void omp_set_nest_lock(void *p)
{
    Lock *l = ol(p);
    if (cur && l->owner == cur->id) {
        l->depth++;
        return;
    }
    lock(l);
}
void omp_unset_nest_lock(void *p)
{
    Lock *l = ol(p);
    if (--l->depth <= 0)
        unlock(l);
}
int omp_test_nest_lock(void *p)
{
    Lock *l = ol(p);
    if (l->owner == cur->id)
        return ++l->depth;
    return omp_test_lock(p) ? (l->depth = 1) : 0;
}

// ===================================================================== pthread
// Fiber-aware mutexes (std::mutex and friends).
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!active || !cur || in_sim)
        return 0;
    Lock *l = ol(m);
    if (l->owner == cur->id) {
        l->depth++;
        return 0;
    }
    if (l->owner < 0 && !(cur->team && cur->team->n > 1)) {
        l->owner = cur->id;
        l->depth = 1;
        return 0;
    }
    lock(l);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!active || !cur || in_sim)
        return 0;
    Lock *l = ol(m);
    if (l->owner >= 0 && l->owner != cur->id)
        return 16;
    l->owner = cur->id;
    l->depth++;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!active || !cur || in_sim)
        return 0;
    Lock *l = ol(m);
    if (--l->depth <= 0) {
        l->depth = 0;
        if (cur->team && cur->team->n > 1)
            unlock(l);
        else
            l->owner = -1;
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    (void)c;
    pthread_mutex_unlock(m);
    // a spurious wake-up after one scheduling round is allowed by the standard
    sync_event(18);
    pthread_mutex_lock(m);
    return 0;
}
int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                   void *)
{
    fatal("pthread_create is not simulated");
}

// function-local statics
int __cxa_guard_acquire(long long *gg)
{
    char *g = (char *)gg;
    if (*g)
        return 0;
    if (!active || !cur || in_sim)
        return 1;
    sync_event(19);
    Lock *l = ol(g);
    while (!*g && l->owner >= 0)
        block(W_LOCK, l, 0);
    if (*g)
        return 0;
    l->owner = cur->id;
    return 1;
}
void __cxa_guard_release(long long *gg)
{
    char *g = (char *)gg;
    *g = 1;
    if (!active || !cur || in_sim)
        return;
    ol(g)->owner = -1;
    sync_event(20);
}
void __cxa_guard_abort(long long *gg)
{
    char *g = (char *)gg;
    if (!active || !cur || in_sim)
        return;
    ol(g)->owner = -1;
}

// ===================================================================== tsan
#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(name, kind, size)                                                  \
    void __tsan_##name(void *a)                                                \
    {                                                                          \
        if (__builtin_expect(--countdown <= 0, 0))                             \
            slow_event((uintptr_t)a, size, kind, PC);                          \
    }
ACC(read1, 0, 1)
ACC(read2, 0, 2)
ACC(read4, 0, 4)
ACC(read8, 0, 8)
ACC(read16, 0, 16)
ACC(write1, 1, 1)
ACC(write2, 1, 2)
ACC(write4, 1, 4)
ACC(write8, 1, 8)
ACC(write16, 1, 16)
ACC(unaligned_read2, 0, 2)
ACC(unaligned_read4, 0, 4)
ACC(unaligned_read8, 0, 8)
ACC(unaligned_read16, 0, 16)
ACC(unaligned_write2, 1, 2)
ACC(unaligned_write4, 1, 4)
ACC(unaligned_write8, 1, 8)
ACC(unaligned_write16, 1, 16)
ACC(volatile_read1, 0, 1)
ACC(volatile_read2, 0, 2)
ACC(volatile_read4, 0, 4)
ACC(volatile_read8, 0, 8)
ACC(volatile_read16, 0, 16)
ACC(volatile_write1, 1, 1)
ACC(volatile_write2, 1, 2)
ACC(volatile_write4, 1, 4)
ACC(volatile_write8, 1, 8)
ACC(volatile_write16, 1, 16)
void __tsan_read_range(void *a, unsigned long n)
{
    if (--countdown <= 0)
        slow_event((uintptr_t)a, n > 64 ? 64 : n, 0, PC);
}
void __tsan_write_range(void *a, unsigned long n)
{
    if (--countdown <= 0)
        slow_event((uintptr_t)a, n > 64 ? 64 : n, 1, PC);
}
void __tsan_vptr_update(void **a, void *)
{
    if (--countdown <= 0)
        slow_event((uintptr_t)a, 8, 1, PC);
}
void __tsan_vptr_read(void **a)
{
    if (--countdown <= 0)
        slow_event((uintptr_t)a, 8, 0, PC);
}
void __tsan_init(void)
{
}
void __tsan_func_entry(void *)
{
}
void __tsan_func_exit(void)
{
}
void __tsan_ignore_thread_begin()
{
}
void __tsan_ignore_thread_end()
{
}
#define ATOMIC(bits, T)                                                        \
    T __tsan_atomic##bits##_load(const volatile T *a, int)                     \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        return *a;                                                             \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int)                  \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        *a = v;                                                                \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                  \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = v;                                                               \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int)                 \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = (T)(o + v);                                                      \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int)                 \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = (T)(o - v);                                                      \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int)                  \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = (T)(o | v);                                                      \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int)                 \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = (T)(o & v);                                                      \
        return o;                                                              \
    }                                                                          \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int)                 \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        *a  = (T)(o ^ v);                                                      \
        return o;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c,     \
                                                      T v, int, int)           \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        if (o == *c) {                                                         \
            *a = v;                                                            \
            return 1;                                                          \
        }                                                                      \
        *c = o;                                                                \
        return 0;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v,  \
                                                    int x, int y)              \
    {                                                                          \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);   \
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, \
                                                 int)                          \
    {                                                                          \
        if (--countdown <= 0)                                                  \
            slow_event((uintptr_t)a, bits / 8, 2, PC);                         \
        T o = *a;                                                              \
        if (o == c)                                                            \
            *a = v;                                                            \
        return o;                                                              \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
}
void __tsan_atomic_signal_fence(int)
{
}
}
