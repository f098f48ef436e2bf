// P17: the thread pool under simulated threads, with submitters, waiters, jobs that submit jobs, pools created and
// destroyed next to each other, failing allocations and failing thread creation.
#include "comp.h"
extern "C" {
#include "thpool.h"
}
namespace {
struct Job {
    int id, pool, client;
    u64 seq_call = 0, seq_acc = 0; // submission called, accepted (0: refused)
    bool counted = false;
    int starts = 0, ends = 0;
    u64 work = 0;
    int child = 0; // jobs this job submits
};
struct Pool {
    threadpool p = nullptr;
    int n = 0, running = 0, gen = 0;
    std::vector<Job *> jobs;
    bool dead = false;
    size_t fib0 = 0, fib1 = 0;
};
Pool g_pool[3];
u64 g_seq;
int g_job;
void body(void *a);
bool submit(int pi, int client, u64 work, int child) {
    Pool &P = g_pool[pi];
    Job *j = new Job;
    j->id = ++g_job;
    j->pool = pi;
    j->client = client;
    j->work = work;
    j->child = child;
    j->seq_call = ++g_seq;
    P.jobs.push_back(j);
    int r = thpool_add_work(P.p, body, j);
    if (r == 0) j->seq_acc = ++g_seq;
    else j->starts -= 1000000; // must never run
    S.mix(r + 3);
    return r == 0;
}
void body(void *a) {
    Job *j = (Job *)a;
    Pool &P = g_pool[j->pool];
    CHECKED();
    if (P.dead) { fail("job-after-destroy", strf("job %d starts after its pool was destroyed", j->id)); return; }
    if (++j->starts != 1) { fail("job-twice", strf("job %d of pool %d is started %s", j->id, j->pool, j->starts < 0 ? "although its submission was refused" : "a second time")); return; }
    int before = 0;
    for (Job *o : P.jobs) if (o->seq_acc && o->seq_acc < j->seq_call && !o->starts) before++;
    if (before > P.n - 1) { fail("job-order", strf("job %d starts although %d jobs accepted before it was submitted have not started (%d threads)", j->id, before, P.n)); return; }
    if (before) probe("start_overlaps");
    if (++P.running > P.n) { fail("too-many", strf("%d jobs run at once on %d threads", P.running, P.n)); return; }
    int w = thpool_num_threads_working(P.p);
    if (w < P.running || w > P.n) { fail("working-count", strf("thpool_num_threads_working says %d, %d jobs run, %d threads", w, P.running, P.n)); return; }
    for (int i = 0; i < j->child; i++) { submit(j->pool, -1, j->work / 2, 0); probe("job_submits_job"); }
    if (j->work > 100) block(nullptr, "job works", j->work);
    else for (u64 i = 0; i < j->work % 7; i++) yield_now();
    P.running--;
    j->ends++;
}
void wait_pool(int pi) {
    Pool &P = g_pool[pi];
    std::vector<Job *> acc;
    for (Job *j : P.jobs) if (j->seq_acc) acc.push_back(j);
    u64 left = 0;
    for (Job *j : acc) left += !j->ends;
    thpool_wait(P.p);
    CHECKED();
    if (left) probe("wait_blocked");
    for (Job *j : acc)
        if (!j->ends) { fail("wait-early", strf("thpool_wait of pool %d returned while job %d, accepted before the call, is %s", pi, j->id, j->starts ? "still running" : "not started")); return; }
}
void init_pool(int pi, int n) {
    Pool &P = g_pool[pi];
    P = Pool();
    P.fib0 = S.fibers.size();
    P.p = thpool_init(n);
    P.fib1 = S.fibers.size();
    P.n = n;
    if (!P.p) {
        if (!S.cur->fail_fired) fail("init-null", strf("thpool_init(%d) failed", n));
        else probe("init_refused");
    }
}
void destroy_pool(int pi, bool waited) {
    Pool &P = g_pool[pi];
    if (!P.p) return;
    thpool_destroy(P.p);
    P.dead = true;
    P.p = nullptr;
    CHECKED();
    u64 lost = 0;
    for (Job *j : P.jobs) {
        if (j->starts > 0 && !j->ends) { fail("destroy-early", strf("thpool_destroy returned while job %d was running", j->id)); return; }
        if (j->seq_acc && !j->starts) lost++;
    }
    if (lost && waited) { fail("job-lost", strf("%llu accepted jobs of pool %d never ran", (unsigned long long)lost, pi)); return; }
    if (lost) probe("destroyed_with_queued_jobs");
}
void exec(AppOp *o) {
    std::string k = o->s1;
    int pi = (int)o->a[0];
    if (k == "sleep") { block(nullptr, "sleep", (u64)o->a[1]); return; }
    if (k == "init") { if (!g_pool[pi].p) init_pool(pi, (int)o->a[1]); return; }
    if (!g_pool[pi].p) return;
    if (k == "add") {
        bool ok = submit(pi, o->client, (u64)o->a[1], (int)o->a[2]);
        o->ret = ok;
        CHECKED();
        if (!ok && !S.cur->fail_fired) fail("refused", "thpool_add_work refused a job although memory was available");
        if (ok && S.cur->fail_fired) probe("accepted_after_failure");
    }
    else if (k == "wait") wait_pool(pi);
    else if (k == "destroy") { bool w = o->a[1]; if (w) wait_pool(pi); destroy_pool(pi, w); }
}
void gen(Rng &r, Plan &p, int) {
    CFG.quantum = r.chance(0.3) ? 0 : 5 + r.below(300);
    if (r.chance(0.4)) CFG.weight_spread = 1;
    CFG.spurious = r.chance(0.3) ? 0.1 : 0;
    CFG.fill = (int)r.below(256);
    CFG.max_steps = 400000;
    p.phases.resize(1);
    int shared = 1 + (int)r.below(4);
    p.note["threads"] = std::to_string(shared);
    int nc = 1 + (int)r.below(4);
    for (int c = 0; c < nc; c++) {
        bool own = r.chance(0.4); // this client also creates and destroys pools of its own
        int n = 2 + (int)r.below(14);
        for (int i = 0; i < n; i++) {
            int kind = (int)r.below(10);
            int pi = 0;
            if (own && c < 2 && r.chance(0.5)) {
                pi = 1 + c;
                AppOp &o = p.add(0, c, COMP);
                if (r.chance(0.3)) { sets(o.s1, "destroy"); o.a[0] = pi; o.a[1] = r.chance(0.5); continue; }
                sets(o.s1, "init"); o.a[0] = pi; o.a[1] = 1 + r.below(3);
                if (r.chance(0.15)) o.a[39] = 1 + r.below(8);
            }
            AppOp &o = p.add(0, c, COMP);
            o.a[0] = pi;
            if (kind < 6) {
                sets(o.s1, "add");
                o.a[1] = r.chance(0.5) ? (i64)r.below(100) : (i64)r.below(200000);
                o.a[2] = r.chance(0.15) ? 1 + r.below(3) : 0;
                if (r.chance(0.06)) o.a[39] = 1;
            }
            else if (kind < 9) sets(o.s1, "wait");
            else { sets(o.s1, "sleep"); o.a[1] = r.below(300000); }
        }
    }
}
void run(Rng &) {
    comp_run([] { init_pool(0, atoi(PLAN->note["threads"].c_str())); }, exec,
             [] {
                 wait_pool(0);
                 bool w = true;
                 for (int i = 2; i >= 0; i--) { if (g_pool[i].p && i) wait_pool(i); destroy_pool(i, w); if (S.stopping) return; }
                 for (int i = 0; i < 60; i++) { // the threads end within a bounded time
                     bool live = false;
                     for (auto *f : S.fibers) if (f->name[0] == 't' && f->st != Fiber::DONE) live = true;
                     if (!live) { CHECKED(); return; }
                     block(nullptr, "threads end", 100000000);
                 }
                 fail("thread-left", "a thread of a destroyed pool still exists");
             }, "thread pool");
}
Reg_ r17({"P17", gen, nullptr, run, 1, nullptr});
}
