// Simulator kernel: one OS thread, cooperative fibers, virtual time, seeded choices.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <functional>
#include <memory>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

// ---------------------------------------------------------------- random choices
struct Rng {
    u64 s[2];
    void seed(u64 x);
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
};

// ---------------------------------------------------------------- run configuration
struct Config {
    int nserver = 1, nclient = 1, nclient_per_server = 0, nodes_per_host = 0;
    u64 cache_max = 0;        // PDC_SERVER_CACHE_MAX_SIZE; 0 = default
    int cache_flush_s = -1;   // PDC_SERVER_CACHE_FLUSH_FREQUENCY_S; -1 = default
    int tmpfs_ckpt = 0;
    int auto_ckpt = 1;
    double quantum = 2000;    // mean number of basic blocks between voluntary preemptions (0 = run until blocked)
    double lat_base = 20e3;   // ns, minimum network latency
    double lat_mean = 50e3;   // ns, mean exponential extra latency
    double slow_prob = 0;     // probability a message or bulk transfer is slow
    double slow_mean = 20e6;  // ns
    double stall_prob = 0;    // probability per scheduling step that a node stalls
    double stall_mean = 50e6; // ns
    double clock_jump = 0;    // probability per clock read of a forward/backward jump of the node's wall clock
    double clock_skew = 0;    // max initial skew of a node's wall clock, seconds
    double weight_spread = 0; // node speed spread: weight in [exp(-x), 1]
    std::string io_match = "pdc_data"; // short and interrupted reads and writes happen to files with this in their path
    double short_write = 0, short_read = 0, eintr = 0; // per I/O call probability (server storage)
    double malloc_fail = 0;
    double spurious = 0;      // probability that a condition wait returns without a signal
    int fill = 0;             // byte used to fill fresh memory
    int gen_hist = 0;
    int sieving = 0;          // PDC_DATA_SIEVING
    int demo = 0;             // show a recorded finding
    u64 max_steps = 6000000;
    u64 max_bb = 3000000000ull;
    std::string to_text() const;
    void set(const std::string &k, const std::string &v);
};
extern Config CFG;

// ---------------------------------------------------------------- nodes and fibers
struct Node;
struct Fiber {
    int id = 0;
    Node *node = nullptr;
    void *sp = nullptr;
    char *stack = nullptr;
    size_t stack_size = 0;
    enum St { RUN, BLOCK, DONE } st = RUN;
    u64 wake = ~0ull; // virtual time to wake at, when blocked
    void *wait_on = nullptr;
    const char *why = "";
    bool timed_out = false;
    std::function<void()> fn;
    int saved_errno = 0;
    bool cancelled = false, detached = false;
    void *retval = nullptr;
    std::vector<void *> joiners;
    int held = 0; // mutexes held
    char *strtok_p = nullptr;
    int fail_nth = 0;      // component runs: fail the n-th allocation or thread creation of this fiber from now on; if negative, its first allocation of more than -fail_nth bytes
    int fail_fired = 0;
    std::string name;
};

struct SimFile; // stdio stream
struct FdEnt { bool used = false; int inode = -1; u64 pos = 0; int flags = 0; std::string path; };
struct HgState;
struct Node {
    int id = 0;          // unique, never reused
    bool server = false;
    int rank = 0, inc = 0, group = 0, host = 0;
    bool alive = true, exited = false;
    int exit_code = 0;
    void *dl = nullptr;
    u64 base = 0;        // load address of its copy of the code
    std::vector<Fiber *> fibers;
    std::vector<FdEnt> fds;
    std::vector<SimFile *> files;
    HgState *hg = nullptr;
    double weight = 1;
    u64 stalled_until = 0;
    i64 clock_off = 0; // ns
    u64 rnd = 1;
    // memory
    char *arena = nullptr, *arena_cur = nullptr, *arena_end = nullptr;
    std::map<void *, void *> mutexes;
    std::map<int, std::vector<int>> comms;
    std::map<std::string, std::string> env;
    std::string cwd;
    int pid = 0;
    bool loaded_ready = false; // blocked in progress at least once
    u64 io_ops = 0;
    u64 coll_seq = 0;
    std::string name() const { return (server ? "s" : "c") + std::to_string(rank) + "." + std::to_string(inc); }
};

struct Violation { std::string cls, msg; };
struct Stats {
    u64 steps = 0, switches = 0, msgs = 0, bulks = 0, bulk_bytes = 0, io_ops = 0, preempts = 0, crashes = 0, restarts = 0, slow_msgs = 0,
        stalls = 0, clock_jumps = 0, short_writes = 0, short_reads = 0, eintrs = 0, io_errors = 0, enospc = 0, torn = 0, malloc_fails = 0,
        ops = 0, checks = 0, cells = 0, bb = 0, spurious = 0;
};

struct Sim {
    Rng rng;                 // schedule and faults
    u64 now = 1000000;       // ns since simulation start
    u64 hash = 0xcbf29ce484222325ull;
    Stats st;
    std::vector<Node *> nodes;
    std::vector<Fiber *> fibers;
    Fiber *cur = nullptr;
    bool stopping = false;
    Violation viol;
    bool violated = false;
    u64 last_progress = 0;
    std::vector<u32> choices;    // recorded
    std::vector<u32> *replay = nullptr;
    size_t replay_at = 0;
    u64 cut = ~0ull;             // after this many choices, take the default
    std::map<u64, int> zeroed;   // choice positions forced to default
    bool verbose = false;
    void mix(u64 v) { hash = (hash ^ v) * 0x100000001b3ull; hash ^= hash >> 29; }
};
extern Sim S;

u64 choose(u64 n, const char *what);       // 0..n-1; 0 is the default
bool chance(double p, const char *what);   // false is the default
double exp_choice(double mean, const char *what);

// ---------------------------------------------------------------- scheduler
Fiber *spawn(Node *n, const std::string &name, std::function<void()> fn, size_t stack = 1 << 20);
void block(void *on, const char *why, u64 timeout_ns = ~0ull); // returns when woken; cur->timed_out
void wake(Fiber *f);
int wake_all(void *on, int max = 1 << 30);
void yield_now();
void point(int weight = 1); // a possible preemption
void at(u64 when, std::function<void()> fn, Node *owner = nullptr);
u64 events_pending();
void run_until(std::function<bool()> done, const char *what); // main context; violation "hang" when stuck
void kill_node(Node *n, const char *why);
void fail(const std::string &cls, const std::string &msg); // record the first violation and stop the run
[[noreturn]] void fiber_exit();
void simlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline Node *me() { return S.cur ? S.cur->node : nullptr; }
std::string describe_blocked();
void report_and_exit(); // write the result record of this run and _exit

// ---------------------------------------------------------------- cluster
Node *new_node(bool server, int rank, int inc, int group);
Node *new_plain_node(); // component runs: a process without a copy of the client or server code
void *load_copy(bool server); // next pristine copy of the node library
void preload(const char *dir, int nserver_copies, int nclient_copies);
void start_servers(bool restart);
void wait_servers_ready();
void start_clients(std::function<void(int, Node *)> unused = nullptr);
void crash_all_servers();
void end_clients(); // forget all client processes
struct Cluster {
    std::vector<Node *> srv, cli;
    int inc = 0;
};
extern Cluster CL;
extern void *server_sym(Node *, const char *);

// ---------------------------------------------------------------- disk
struct Inode { std::vector<uint8_t> *data; bool dir = false; int nlink = 1; char *pinned = nullptr; };
struct Disk {
    std::map<std::string, int> names;
    std::vector<Inode> inodes;
    u64 quota = ~0ull, used = 0;
    // fault plan: at the n-th mutating operation of the selected kind do this
    struct Plan { std::string kind; std::string match; i64 nth = -1; std::string err; i64 keep = -1; int count = 1; i64 seen = 0; int fired = 0; u64 last = 0; }; // last: op_seq() when it fired last
    std::vector<Plan> plans;
    u64 mutops = 0;
    i64 crash_at = -1; // mutating operation (counted from arming) at which the node crashes
    i64 crash_seen = 0;
    bool crash_armed = false, crashed = false;
    int crash_rank = -1;
    std::string crash_match;
};
extern Disk DISK;
u64 op_seq(); // sequence number of the last operation that was invoked or returned
bool disk_read(const std::string &path, std::string &out);
void disk_write(const std::string &path, const std::string &data);

// memory
bool freed_memory(const void *p);
void mem_fail(const char *what);
bool fail_here(size_t sz = 0);
bool mem_check_all(std::string *why);
void *node_alloc(Node *n, size_t sz);

// history of application operations, filled by the application fibers
struct Op;
