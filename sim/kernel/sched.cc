// Scheduler: fibers, virtual time, events, seeded choices.
#include "sim.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <math.h>
#include <queue>
#include <unistd.h>
#include <sstream>

Config CFG;
Sim S;
extern "C" void ctx_switch(void **save_sp, void *new_sp);

// ------------------------------------------------------------ rng
static u64 splitmix(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void Rng::seed(u64 x) { s[0] = splitmix(x); s[1] = splitmix(x); }
u64 Rng::next() { // xoroshiro128+
    u64 s0 = s[0], s1 = s[1], r = s0 + s1;
    s1 ^= s0;
    s[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    s[1] = (s1 << 37) | (s1 >> 27);
    return r;
}

// A choice is drawn from the seed; choices at or after S.cut and those in S.zeroed take the default (0).
static u64 g_choice_no = 0;
static bool forced_default() { u64 i = g_choice_no++; return i >= S.cut || (!S.zeroed.empty() && S.zeroed.count(i)); }
u64 choices_made() { return g_choice_no; }
u64 choose(u64 n, const char *what) {
    if (n <= 1) return 0;
    u64 v = S.rng.below(n);
    if (forced_default()) v = 0;
    S.mix(v * 31 + n);
    return v;
}
bool chance(double p, const char *what) {
    if (p <= 0) return false;
    bool v = S.rng.chance(p);
    if (forced_default()) v = false;
    S.mix(v + 7);
    return v;
}
double exp_choice(double mean, const char *what) {
    if (mean <= 0) return 0;
    double u = S.rng.unit();
    if (forced_default()) return 0;
    double r = -log(1 - u) * mean;
    S.mix((u64)r);
    return r;
}

// ------------------------------------------------------------ fibers
static void *main_sp;
static i64 g_budget; // basic blocks left before the running fiber is preempted
static std::deque<Fiber *> g_unused;

static void switch_to_main() {
    Fiber *f = S.cur;
    f->saved_errno = errno;
    S.cur = nullptr;
    ctx_switch(&f->sp, main_sp);
    errno = f->saved_errno;
}
static void fiber_main() {
    Fiber *f = S.cur;
    f->fn();
    fiber_exit();
}
void fiber_exit() {
    Fiber *f = S.cur;
    f->st = Fiber::DONE;
    wake_all(f);
    switch_to_main();
    abort();
}
Fiber *spawn(Node *n, const std::string &name, std::function<void()> fn, size_t stack) {
    Fiber *f = new Fiber;
    f->id = (int)S.fibers.size();
    f->node = n;
    f->name = name;
    f->fn = std::move(fn);
    f->stack_size = stack;
    f->stack = (char *)mmap(nullptr, stack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (f->stack == MAP_FAILED) { perror("mmap stack"); _exit(3); }
    mprotect(f->stack, 4096, PROT_NONE);
    u64 *sp = (u64 *)(f->stack + stack + 4096);
    *--sp = 0;
    *--sp = 0;
    *--sp = 0;                 // alignment: on entry the stack pointer is 8 modulo 16
    *--sp = (u64)fiber_main;   // return address
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    S.fibers.push_back(f);
    if (n) n->fibers.push_back(f);
    return f;
}
void yield_now() {
    if (!S.cur) return;
    switch_to_main();
}
static void new_budget() {
    g_budget = 50000; // even without preemption a fiber that never blocks comes back to the scheduler
    if (CFG.quantum <= 0) return;
    double r = exp_choice(CFG.quantum, "quantum");
    if (r > 0) g_budget = (i64)r + 1;
}
void point(int w) {
    if (!S.cur) return;
    g_budget -= w;
    if (g_budget <= 0) { S.st.preempts++; switch_to_main(); }
}
static unsigned char *g_cov;
u64 g_cov_n = 0;
extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!S.cur) return;
    S.st.bb++;
    if (g_cov) {
        u64 pc = (u64)__builtin_return_address(0);
        Node *n = S.cur->node;
        u64 k = ((pc - (n ? n->base : 0) + (n && n->server ? 1 : 0)) * 0x9e3779b97f4a7c15ull) >> 44;
        if (!g_cov[k]) g_cov[k] = 1; // shared by all children: write only once
    }
    if (--g_budget <= 0) {
        S.st.preempts++;
        if (S.verbose && CFG.quantum <= 0) { Dl_info d; if (dladdr(__builtin_return_address(0), &d)) simlog("runs on in %s", d.dli_sname ? d.dli_sname : "?"); }
        switch_to_main();
    }
}
// Memory accesses of the multi-threaded sources are instrumented too (gcc -fsanitize=thread, with these hooks instead of
// its run-time library): a preemption can fall between the load and the store of an unprotected update.
static inline void access() {
    if (S.cur && --g_budget <= 0) { S.st.preempts++; switch_to_main(); }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
#define ACC(n) void __tsan_read##n(void *) { access(); } void __tsan_write##n(void *) { access(); } void __tsan_unaligned_read##n(void *) { access(); } void __tsan_unaligned_write##n(void *) { access(); } void __tsan_volatile_read##n(void *) { access(); } void __tsan_volatile_write##n(void *) { access(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *, unsigned long) { access(); }
void __tsan_write_range(void *, unsigned long) { access(); }
void __tsan_vptr_read(void *) {}
void __tsan_vptr_update(void *, void *) {}
#define ATOM(n, t) t __tsan_atomic##n##_load(const volatile t *a, int) { access(); return *a; } void __tsan_atomic##n##_store(volatile t *a, t v, int) { access(); *a = v; } \
 t __tsan_atomic##n##_exchange(volatile t *a, t v, int) { access(); t o = *a; *a = v; return o; } t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int) { access(); t o = *a; *a = o + v; return o; } \
 t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int) { access(); t o = *a; *a = o - v; return o; } t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int) { access(); t o = *a; *a = o & v; return o; } \
 t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int) { access(); t o = *a; *a = o | v; return o; } t __tsan_atomic##n##_fetch_xor(volatile t *a, t v, int) { access(); t o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *e, t v, int, int) { access(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *e, t v, int, int) { access(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 t __tsan_atomic##n##_compare_exchange_val(volatile t *a, t e, t v, int, int) { access(); t o = *a; if (o == e) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { access(); }
void __tsan_atomic_signal_fence(int) {}
}
void block(void *on, const char *why, u64 timeout_ns) {
    Fiber *f = S.cur;
    f->st = Fiber::BLOCK;
    f->wait_on = on;
    f->why = why;
    f->timed_out = false;
    f->wake = timeout_ns == ~0ull ? ~0ull : S.now + timeout_ns;
    switch_to_main();
}
void wake(Fiber *f) {
    if (f->st == Fiber::BLOCK) { f->st = Fiber::RUN; f->wait_on = nullptr; f->wake = ~0ull; }
}
int wake_all(void *on, int max) {
    int n = 0;
    for (auto *f : S.fibers)
        if (f->st == Fiber::BLOCK && f->wait_on == on && n < max) { wake(f); n++; }
    return n;
}

// ------------------------------------------------------------ events
struct Ev { u64 t, seq; std::function<void()> fn; Node *owner; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> g_ev;
static u64 g_ev_seq = 0;
void at(u64 when, std::function<void()> fn, Node *owner) { g_ev.push(Ev{when < S.now ? S.now : when, g_ev_seq++, std::move(fn), owner}); }
u64 events_pending() { return g_ev.size(); }

void simlog(const char *fmt, ...) {
    if (!S.verbose) return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "[%10.3fms %-6s] ", S.now / 1e6, S.cur && S.cur->node ? (S.cur->node->name() + "/" + S.cur->name).c_str() : "-");
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    va_end(ap);
}

void fail(const std::string &cls, const std::string &msg) {
    if (!S.violated) {
        S.violated = true;
        S.viol = {cls, msg};
        simlog("VIOLATION %s: %s", cls.c_str(), msg.c_str());
    }
    S.stopping = true;
}
std::string describe_blocked() {
    std::ostringstream o;
    for (auto *f : S.fibers) {
        if (f->st == Fiber::DONE || !f->node || !f->node->alive) continue;
        if (f->st == Fiber::BLOCK) o << f->node->name() << "/" << f->name << ":" << f->why << " ";
        else o << f->node->name() << "/" << f->name << ":runnable ";
    }
    return o.str();
}

static const u64 HANG_NS = 30ull * 1000000000ull;
void run_until(std::function<bool()> done, const char *what) {
    std::vector<Fiber *> run;
    if (S.last_progress < S.now) S.last_progress = S.now;
    while (!S.stopping && !done()) {
        if (++S.st.steps > CFG.max_steps || S.st.bb > CFG.max_bb) {
            fail("livelock", std::string("no completion of '") + what + "' within the step budget; " + describe_blocked());
            return;
        }
        while (!g_ev.empty() && g_ev.top().t <= S.now && !S.stopping) {
            Ev e = g_ev.top();
            g_ev.pop();
            if (e.owner && !e.owner->alive) continue;
            S.mix(e.t * 3);
            e.fn();
        }
        if (S.stopping) return;
        if (done()) return;
        run.clear();
        u64 next = ~0ull;
        double wsum = 0;
        for (auto *f : S.fibers) {
            if (f->st == Fiber::DONE) continue;
            if (f->node && !f->node->alive) { f->st = Fiber::DONE; continue; }
            u64 su = f->node ? f->node->stalled_until : 0;
            if (f->st == Fiber::RUN) {
                if (su > S.now) { if (su < next) next = su; continue; }
                run.push_back(f);
                wsum += f->node ? f->node->weight : 1;
            }
            else if (f->wake != ~0ull) {
                if (f->wake <= S.now) {
                    if (su > S.now) { if (su < next) next = su; continue; }
                    f->timed_out = true;
                    f->st = Fiber::RUN;
                    f->wait_on = nullptr;
                    f->wake = ~0ull;
                    run.push_back(f);
                    wsum += f->node ? f->node->weight : 1;
                }
                else if (f->wake < next) next = f->wake;
            }
        }
        if (run.empty()) {
            if (!g_ev.empty() && g_ev.top().t < next) next = g_ev.top().t;
            if (next == ~0ull || next > S.last_progress + HANG_NS) {
                fail("hang", std::string("nothing can make progress towards '") + what + "'; " + describe_blocked());
                return;
            }
            S.now = next;
            continue;
        }
        if (S.now > S.last_progress + HANG_NS) {
            fail("hang", std::string("no progress towards '") + what + "'; " + describe_blocked());
            return;
        }
        Fiber *f = run[0];
        if (run.size() > 1) {
            double u = S.rng.unit() * wsum;
            bool def = forced_default();
            if (!def)
                for (auto *g : run) {
                    f = g;
                    u -= g->node ? g->node->weight : 1;
                    if (u < 0) break;
                }
        }
        if (f->node && chance(CFG.stall_prob, "stall")) {
            f->node->stalled_until = S.now + (u64)exp_choice(CFG.stall_mean, "stall length");
            S.st.stalls++;
            if (f->node->stalled_until > S.now) continue;
        }
        S.mix(f->id);
        S.now += 300;
        S.st.switches++;
        new_budget();
        S.cur = f;
        u64 bb0 = S.st.bb;
        ctx_switch(&main_sp, f->sp);
        S.cur = nullptr;
        S.now += S.st.bb - bb0; // computing takes time: 1 ns per basic block
    }
}
void cov_enable() { g_cov = (unsigned char *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
u64 cov_count() { if (!g_cov) return 0; u64 n = 0; for (int i = 0; i < (1 << 20); i++) n += g_cov[i]; return n; }
const unsigned char *cov_map() { return g_cov; }

void kill_node(Node *n, const char *why) {
    if (!n->alive) return;
    simlog("node %s stops: %s", n->name().c_str(), why);
    n->alive = false;
    for (auto *f : n->fibers) {
        if (f == S.cur) continue;
        f->st = Fiber::DONE;
    }
}
