// Internal interface of the simulator runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567)
    {
    }
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n)
    {
        return n ? next() % n : 0;
    }
    double real()
    {
        return (next() >> 11) * (1.0 / 9007199254740992.0);
    }
};

// ---------------------------------------------------------------- hashing
struct Hash {
    u64 h = 0xcbf29ce484222325ull;
    void add(const void *p, size_t n)
    {
        const unsigned char *c = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++) {
            h ^= c[i];
            h *= 0x100000001b3ull;
        }
    }
    void add(u64 v)
    {
        add(&v, 8);
    }
};

// ---------------------------------------------------------------- job
struct Decision {
    int from;
    u64 at; // local event count of the thread switched away from
    int to;
    bool operator<(const Decision &o) const
    {
        return from != o.from ? from < o.from : at < o.at;
    }
};

struct Fault {
    std::string kind;   // open, read, write, close, trunc, stat, seek, any,
                        // wopen (open for writing), screen
    std::string path;   // suffix match; empty: any
    u64 nth = 0;        // 0-based match number at which it applies
    u64 count = 1;      // how many consecutive matches it applies to
    std::string action; // errno name, "short", "crash", "torn"
    u64 arg = 0;
    // run state
    u64 seen = 0, fired = 0;
};

struct ClockJump {
    u64 at; // clock read index
    double delta;
};

struct Job {
    std::vector<std::string> argv;
    std::vector<std::pair<std::string, std::string>> env;
    std::map<std::string, std::string> files;
    int nprocs = 8;
    // scheduling
    std::string policy = "none";
    u64 seed           = 1;
    double quantum     = 1000;
    double prob        = 0.05;
    u64 depth          = 3;      // pct change points
    u64 est_events     = 100000; // pct horizon
    int victim         = -1;
    std::vector<u64> pcs; // race policy
    std::vector<Decision> replay;
    bool scout = false;
    // limits
    u64 max_events = 2000000000ull;
    u64 wall_ms    = 60000;
    // faults
    std::vector<Fault> faults;
    int64_t capacity = -1; // disk bytes, <0: unlimited
    u64 crash_event  = 0;
    int crash_io     = -1;
    // signals
    u64 sig_event    = 0;  // deliver SIGINT at this global event
    int sig_io       = -1; // or before this I/O operation
    u64 sig_event2   = 0;  // a second one
    int sig_sync     = -1; // or before this synchronisation operation
    int signo        = 2;
    // allocation
    u64 alloc_fail  = 0; // n-th allocation (1-based) fails
    u64 alloc_count = 1;
    bool alloc_sites = false; // tell the call chain of every allocation
    u64 alloc_min   = 0; // only requests at least this large are counted
    int heap_fill   = -1; // -1: leave alone, else byte; 256: seeded random
    int heap_order  = 0;  // 0: blocks upwards, 1: downwards, 2: scattered with gaps
    // clock
    std::string clock = "normal";
    double tick       = 1e-6;
    std::vector<ClockJump> jumps;
    bool want_io_trace = false;
    bool want_decisions = false;
};

extern Job job;
extern bool active;    // simulation of the program is on
extern int in_sim;     // >0: runtime code is executing
struct InSim {
    InSim()
    {
        in_sim++;
    }
    ~InSim()
    {
        in_sim--;
    }
};

// ---------------------------------------------------------------- events
extern int64_t countdown; // events left until slow path
u64 events_now();
void slow_event(uintptr_t addr, unsigned size, int kind, uintptr_t pc);
void sync_event(int what); // one GOMP/lock operation
int current_fiber();
int team_size_now();

// ---------------------------------------------------------------- io
struct VFile {
    std::string data;
};
struct IoOp {
    const char *kind;
    std::string path;
    int64_t size;
    int64_t ret;
    u64 event;
};
void vfs_reset(const std::map<std::string, std::string> &files);
std::map<std::string, std::string> vfs_dump();
extern std::vector<IoOp> io_trace;
extern u64 io_ops;
extern std::map<std::string, u64> fault_counts;
extern std::string screen, errtext, raw_stderr;
void setup_streams();

// ---------------------------------------------------------------- clock
double clock_read();
extern u64 clock_reads;
extern double clock_first, clock_last;

// ---------------------------------------------------------------- misc
extern u64 alloc_seen, alloc_failed;
void seed_fill(u64 seed);
extern std::vector<uint32_t> &alloc_sites;
extern bool heap_dead;
void deliver_signal();
extern int signals_delivered;
[[noreturn]] void finish(const char *how, int status);
[[noreturn]] void fatal(const char *msg);
long raw_write(int fd, const void *p, size_t n);

struct SchedStats {
    u64 events = 0, preemptions = 0, blocks = 0, syncs = 0, regions = 0;
    int max_team = 0, max_fibers = 0;
    u64 hash = 0;
    std::map<int, u64> team_sizes;
};
extern SchedStats stats;
extern std::vector<Decision> decisions;
extern std::map<std::pair<uintptr_t, uintptr_t>, u64> races;
void sched_init();
void sched_account();
}
