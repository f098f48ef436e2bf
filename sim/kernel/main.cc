// Driver: explores seeds in forked children, gates and minimises a violation, writes and replays replay files.
#include "plan.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <ucontext.h>
#include <errno.h>
#include <fstream>
#include <sstream>
#include <algorithm>

void run_plan(Plan &p);
void set_prop(const Prop *p);
void cov_enable();
u64 cov_count();
u64 choices_made();

// ------------------------------------------------------------ configuration as text
#define FIELDS(X) X(nserver) X(nclient) X(nclient_per_server) X(nodes_per_host) X(cache_max) X(cache_flush_s) X(tmpfs_ckpt) X(auto_ckpt) \
    X(quantum) X(lat_base) X(lat_mean) X(slow_prob) X(slow_mean) X(stall_prob) X(stall_mean) X(clock_jump) X(clock_skew) X(weight_spread) \
    X(short_write) X(short_read) X(eintr) X(malloc_fail) X(spurious) X(fill) X(gen_hist) X(sieving) X(max_steps) X(max_bb) X(demo)
void Config::set(const std::string &k, const std::string &v) {
#define X(f) if (k == #f) { f = (decltype(f))atof(v.c_str()); return; }
    FIELDS(X)
#undef X
    fprintf(stderr, "unknown setting %s\n", k.c_str());
    exit(3);
}
std::string Config::to_text() const {
    std::ostringstream o;
#define X(f) o << #f << "=" << f << " ";
    FIELDS(X)
#undef X
    return o.str();
}

struct Result {
    volatile int state; // 0 empty 1 finished
    u64 seed;
    int violated;
    char cls[48];
    char msg[1800];
    u64 hash, now, choices, nops;
    Stats st;
    char probes[4000];
    char cfg[1200];
};
struct Spec {
    u64 seed = 1;
    std::vector<int> drop;
    u64 cut = ~0ull;
    std::vector<u64> zero;
    std::vector<std::pair<std::string, std::string>> sets;
};
static const Prop *P;
static Result *g_res; // the child's result slot
static Plan g_plan;
static bool g_post;

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void report_and_exit() {
    Result *r = g_res;
    r->violated = S.violated;
    snprintf(r->cls, sizeof r->cls, "%s", S.viol.cls.c_str());
    snprintf(r->msg, sizeof r->msg, "%s", S.viol.msg.c_str());
    for (char *c = r->msg; *c; c++) if (*c == '\n') *c = ' ';
    r->hash = S.hash;
    r->now = S.now;
    r->choices = choices_made();
    r->st = S.st;
    u64 n = 0;
    for (AppOp *o : g_plan.all()) n += !DROP.count(o->id);
    r->nops = n;
    std::string p;
    for (auto &k : PROBE) p += k.first + "=" + std::to_string(k.second) + " ";
    snprintf(r->probes, sizeof r->probes, "%s", p.c_str());
    snprintf(r->cfg, sizeof r->cfg, "%s", CFG.to_text().c_str());
    __sync_synchronize();
    r->state = 1;
    fflush(stderr);
    _exit(0);
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
    static int depth = 0;
    if (depth++) _exit(4);
    ucontext_t *u = (ucontext_t *)uc;
    void *pc = (void *)u->uc_mcontext.gregs[REG_RIP];
    Dl_info d;
    std::string where = "?";
    if (dladdr(pc, &d) && d.dli_sname) where = d.dli_sname;
    // walk for the first frame inside the code under test
    Node *n = me();
    if (!n && !S.cur) { // the harness itself
        fprintf(stderr, "harness crashed: signal %d at %s (%p) addr %p\n", sig, where.c_str(), pc, si->si_addr);
        _exit(4);
    }
    std::string frames;
    void *bt[24];
    int k = backtrace(bt, 24);
    for (int i = 0; i < k; i++) {
        Dl_info e;
        if (dladdr(bt[i], &e) && e.dli_fname && (strstr(e.dli_fname, "/simcopies") || strstr(e.dli_fname, "libcomp")) && e.dli_sname) { frames += std::string(frames.empty() ? "" : " < ") + e.dli_sname; }
    }
    fail("crash", strf("%s: signal %d (%s) in %s [%s]", n ? n->name().c_str() : "?", sig, strsignal(sig), where.c_str(), frames.c_str()));
    report_and_exit();
}
static void child_main(const Spec &sp, Result *slot, bool verbose) {
    g_res = slot;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    static char alt[1 << 17];
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    slot->seed = sp.seed;
    S.verbose = verbose;
    S.cut = sp.cut;
    for (u64 z : sp.zero) S.zeroed[z] = 1;
    for (int d : sp.drop) DROP.insert(d);
    Rng g;
    g.seed(sp.seed * 2 + 1);
    S.rng.seed(sp.seed * 2);
    int variant = P->variants > 1 ? (int)(sp.seed % P->variants) : 0;
    for (auto &kv : sp.sets) CFG.set(kv.first, kv.second); // a generator may look at them
    if (P->gen) P->gen(g, g_plan, variant);
    for (auto &kv : sp.sets) CFG.set(kv.first, kv.second);
    if (verbose) fprintf(stderr, "config %s\n", CFG.to_text().c_str());
    set_prop(P);
    PLAN = &g_plan;
    if (P->run) { P->run(g); }
    else {
        run_plan(g_plan);
        if (!S.violated && P->check) P->check(g_plan);
    }
    report_and_exit();
}
static Result *new_slot() {
    void *p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (Result *)p;
}
static int g_child_limit = 120;
// run one specification to completion in a child; returns false on a harness error
static bool run_sync(const Spec &sp, Result *slot, bool verbose = false) {
    memset((void *)slot, 0, sizeof *slot);
    pid_t pid = fork();
    if (!pid) child_main(sp, slot, verbose);
    double t0 = now_s();
    int st;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (now_s() - t0 > g_child_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return false; }
        usleep(300);
    }
    return slot->state == 1;
}
static std::vector<Result *> g_pool;
// run many specifications in parallel and return, in order, whether each still fails with the class
static std::vector<bool> run_many(const std::vector<Spec> &v, const std::string &cls, int jobs, double deadline) {
    std::vector<bool> out(v.size(), false);
    while ((int)g_pool.size() < jobs) g_pool.push_back(new_slot());
    std::vector<pid_t> pid(jobs, 0);
    std::vector<int> idx(jobs, -1);
    size_t next = 0;
    int live = 0;
    while (next < v.size() || live) {
        for (int j = 0; j < jobs && next < v.size(); j++)
            if (!pid[j] && now_s() < deadline) {
                memset((void *)g_pool[j], 0, sizeof(Result));
                idx[j] = (int)next++;
                pid[j] = fork();
                if (!pid[j]) child_main(v[idx[j]], g_pool[j], false);
                live++;
            }
        if (!live) break;
        int st;
        pid_t p = waitpid(-1, &st, 0);
        for (int j = 0; j < jobs; j++)
            if (pid[j] == p) {
                out[idx[j]] = g_pool[j]->state == 1 && g_pool[j]->violated && cls == g_pool[j]->cls;
                pid[j] = 0;
                live--;
            }
    }
    return out;
}
static std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
static void print_plan(std::ostream &f, const Spec &sp) { // the plan that remains
    f.flush();
    pid_t pid = fork();
    if (!pid) {
        Rng g;
        g.seed(sp.seed * 2 + 1);
        S.rng.seed(sp.seed * 2);
        for (auto &kv : sp.sets) CFG.set(kv.first, kv.second);
        if (P->gen) P->gen(g, g_plan, P->variants > 1 ? (int)(sp.seed % P->variants) : 0);
        for (auto &kv : sp.sets) CFG.set(kv.first, kv.second);
        f << "# config " << CFG.to_text() << "\n";
        std::set<int> dr(sp.drop.begin(), sp.drop.end());
        int ph = 0;
        for (auto &p : g_plan.phases) {
            f << "# phase " << ph++ << (p.restart ? " (servers restart)" : "") << (p.end_close ? " ends with an orderly close" : " ends with all processes killed") << "\n";
            for (auto &x : p.faults) if (!dr.count(x.id)) f << "#   fault " << x.id << " " << x.kind << " rank " << x.rank << " nth " << x.nth << " " << x.match << " " << x.disk.kind << " " << x.disk.match << " nth " << x.disk.nth << " " << x.disk.err << " keep " << x.disk.keep << "\n";
            for (auto &c : p.ops) for (auto &o : c) if (!dr.count(o.id)) f << "#   " << describe(o) << "\n";
        }
        f.flush();
        _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
}
static void write_replay(const std::string &path, const Spec &sp, const Result &r) {
    std::ofstream f(path);
    f << "property " << P->id << "\nseed " << sp.seed << "\n";
    f << "drop";
    for (int d : sp.drop) f << " " << d;
    f << "\n";
    if (sp.cut != ~0ull) f << "cut " << sp.cut << "\n";
    f << "zero";
    for (u64 z : sp.zero) f << " " << z;
    f << "\n";
    for (auto &kv : sp.sets) f << "set " << kv.first << " " << kv.second << "\n";
    f << "expect " << r.cls << "\nhash " << r.hash << "\nmessage " << r.msg << "\n";
    f << "# config " << r.cfg << "\n# virtual time " << r.now / 1e9 << " s, choices " << r.choices << ", operations " << r.nops << "\n";
    print_plan(f, sp);
}
static bool read_replay(const std::string &path, Spec &sp, std::string &prop, std::string &cls, u64 &hash) {
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream i(line);
        std::string k;
        i >> k;
        if (k == "property") i >> prop;
        if (k == "seed") i >> sp.seed;
        if (k == "cut") i >> sp.cut;
        if (k == "drop") { int d; while (i >> d) sp.drop.push_back(d); }
        if (k == "zero") { u64 d; while (i >> d) sp.zero.push_back(d); }
        if (k == "set") { std::string a, b; i >> a >> b; sp.sets.push_back({a, b}); }
        if (k == "expect") i >> cls;
        if (k == "hash") i >> hash;
    }
    return true;
}
static std::vector<int> plan_ids(u64 seed) { // the droppable parts of the plan of a seed
    int fd[2];
    if (pipe(fd)) return {};
    pid_t pid = fork();
    if (!pid) {
        Rng g;
        g.seed(seed * 2 + 1);
        if (P->gen) P->gen(g, g_plan, P->variants > 1 ? (int)(seed % P->variants) : 0);
        std::string s;
        for (auto &p : g_plan.phases) {
            for (auto &x : p.faults) s += std::to_string(x.id) + " ";
            for (auto &c : p.ops) for (auto &o : c) if (o.kind != CLOSE_SERVERS) s += std::to_string(o.id) + " ";
        }
        for (size_t o = 0; o < s.size();) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[4096];
    ssize_t k;
    while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    std::vector<int> v;
    std::istringstream i(s);
    int x;
    while (i >> x) v.push_back(x);
    return v;
}
static Spec minimise(Spec sp, const std::string &cls, int jobs, double budget) {
    double end = now_s() + budget;
    auto fails1 = [&](const Spec &x) { return run_many({x}, cls, 1, end)[0]; };
    // 1. simpler environment
    for (auto kv : std::vector<std::pair<std::string, std::string>>{{"slow_prob", "0"}, {"stall_prob", "0"}, {"clock_jump", "0"}, {"clock_skew", "0"}, {"weight_spread", "0"}, {"eintr", "0"}, {"short_read", "0"}, {"short_write", "0"}, {"spurious", "0"}, {"quantum", "0"}}) {
        Spec t = sp;
        t.sets.push_back(kv);
        if (now_s() < end && fails1(t)) sp = t;
    }
    // 2. fewer operations and faults (ddmin, complements)
    std::vector<int> ids = plan_ids(sp.seed);
    if (!P->gen) ids.clear();
    std::vector<int> keep = ids;
    size_t n = 2;
    while (keep.size() >= 2 && now_s() < end) {
        std::vector<Spec> cand;
        std::vector<std::vector<int>> kept;
        n = std::min(n, keep.size());
        for (size_t c = 0; c < n; c++) {
            std::vector<int> k;
            for (size_t i = 0; i < keep.size(); i++) if (i * n / keep.size() != c) k.push_back(keep[i]);
            Spec t = sp;
            std::set<int> ks(k.begin(), k.end());
            t.drop.clear();
            for (int x : ids) if (!ks.count(x)) t.drop.push_back(x);
            cand.push_back(t);
            kept.push_back(k);
        }
        auto r = run_many(cand, cls, jobs, end);
        bool any = false;
        for (size_t i = 0; i < r.size() && !any; i++) if (r[i]) { any = true; keep = kept[i]; sp = cand[i]; }
        if (any) n = std::max<size_t>(2, n - 1);
        else if (n >= keep.size()) break;
        else n = std::min(keep.size(), n * 2);
    }
    // 3. shortest prefix of non-default choices
    Result *s = new_slot();
    if (run_sync(sp, s) && s->violated) {
        u64 lo = 0, hi = s->choices;
        while (lo < hi && now_s() < end) {
            std::vector<Spec> c;
            std::vector<u64> pts;
            for (int i = 0; i < jobs; i++) { u64 m = lo + (hi - lo) * i / jobs; pts.push_back(m); Spec t = sp; t.cut = m; c.push_back(t); }
            auto r = run_many(c, cls, jobs, end);
            bool hit = false;
            for (size_t i = 0; i < r.size(); i++) if (r[i]) { hi = pts[i]; hit = true; if (i) lo = pts[i - 1] + 1; sp.cut = hi; break; }
            if (!hit) { u64 nl = pts.back() + 1; if (nl <= lo) break; lo = nl; }
        }
    }
    return sp;
}
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string prop, lib, replay, outdir = ".", evid;
    u64 seed = 0, base = 1, count = ~0ull, start = 0;
    double secs = 10, min_secs = 20;
    int jobs = 8, verbose = 0, ns = 12, nc = 12, rep_n = 6;
    bool one = false, keep_going = false, want_sample = false;
    u64 sample_base = 1;
    std::vector<std::pair<std::string, std::string>> sets;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&] { return std::string(argv[++i]); };
        if (a == "--prop") prop = v();
        else if (a == "--lib") lib = v();
        else if (a == "--seed") { seed = strtoull(v().c_str(), 0, 10); one = true; }
        else if (a == "--base") base = strtoull(v().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(v().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(v().c_str(), 0, 10);
        else if (a == "--time") secs = atof(v().c_str());
        else if (a == "--mintime") min_secs = atof(v().c_str());
        else if (a == "--jobs") jobs = atoi(v().c_str());
        else if (a == "--replay") replay = v();
        else if (a == "--out") outdir = v();
        else if (a == "--evidence") evid = v();
        else if (a == "--sample") { sample_base = strtoull(v().c_str(), 0, 10); want_sample = true; }
        else if (a == "--verbose") verbose = 1;
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--set") { std::string s = v(); size_t e = s.find('='); sets.push_back({s.substr(0, e), s.substr(e + 1)}); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    Spec rs;
    std::string rcls;
    u64 rhash = 0;
    if (!replay.empty() && !read_replay(replay, rs, prop, rcls, rhash)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    for (auto &p : PROPS) if (prop == p.id) P = &p;
    if (!P && !lib.empty()) { // a component simulation
        if (!dlopen((lib + "/libcomp.so").c_str(), RTLD_NOW | RTLD_LOCAL)) { fprintf(stderr, "component library: %s\n", dlerror()); return 3; }
        for (auto &p : PROPS) if (prop == p.id) P = &p;
    }
    if (!P) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 3; }
    u64 pid_salt = 0;
    for (const char *c = P->id; *c; c++) pid_salt = pid_salt * 131 + *c;
    auto seed_of = [&](u64 i) { return h64(base, pid_salt, i) >> 16; };
    if (want_sample) {
        base = sample_base;
        Spec sp;
        sp.seed = seed_of(0);
        std::ofstream f("/dev/stdout");
        f << "seed " << sp.seed << "\n";
        print_plan(f, sp);
        return 0;
    }
    cov_enable();
    if (!P->run) preload(lib.c_str(), ns, nc);
    Result *slot = new_slot();
    if (!replay.empty()) {
        if (!run_sync(rs, slot, verbose)) { fprintf(stderr, "no result\n"); return 4; }
        printf("replay %s: violated=%d class=%s hash=%llu message=%s\n", replay.c_str(), slot->violated, slot->cls, (unsigned long long)slot->hash, slot->msg);
        bool same = slot->violated && rcls == slot->cls && rhash == slot->hash;
        printf(same ? "REPRODUCED\n" : "NOT-REPRODUCED\n");
        return same ? 1 : 0;
    }
    if (one) {
        Spec sp;
        sp.seed = seed;
        sp.sets = sets;
        bool ok = run_sync(sp, slot, verbose);
        printf("ok=%d violated=%d class=%s msg=%s hash=%llu now=%.6f steps=%llu choices=%llu ops=%llu msgs=%llu bb=%llu\nprobes %s\n", ok, slot->violated, slot->cls, slot->msg, (unsigned long long)slot->hash,
               slot->now / 1e9, (unsigned long long)slot->st.steps, (unsigned long long)slot->choices, (unsigned long long)slot->st.ops, (unsigned long long)slot->st.msgs, (unsigned long long)slot->st.bb, slot->probes);
        return ok ? slot->violated : 4;
    }
    // ---------------------------------------------------------------- exploration
    std::vector<Result *> slots(jobs);
    for (auto &s : slots) s = new_slot();
    std::vector<pid_t> pid(jobs, 0);
    std::vector<double> begun(jobs, 0);
    std::vector<u64> sd(jobs, 0);
    double t0 = now_s(), end = t0 + secs;
    u64 next = start, runs = 0, harness_errors = 0;
    Stats tot;
    memset((void *)&tot, 0, sizeof tot);
    std::set<u64> hashes;
    std::map<std::string, u64> probes, classes;
    double vtime = 0;
    std::vector<Result> viols;
    std::vector<std::pair<u64, u64>> recheck; // seed, hash
    std::string sample;
    int live = 0;
    u64 det_checked = 0, det_bad = 0;
    bool stop = false;
    while (true) {
        for (int j = 0; j < jobs; j++)
            if (!pid[j] && !stop && now_s() < end && next - start < count) {
                memset((void *)slots[j], 0, sizeof(Result));
                Spec sp;
                // every 32nd run repeats an earlier seed: the event hash must be identical
                bool re = !recheck.empty() && (next % 32 == 31);
                sp.seed = re ? recheck[next % recheck.size()].first : seed_of(next);
                sp.sets = sets;
                next++;
                sd[j] = sp.seed;
                pid[j] = fork();
                if (!pid[j]) child_main(sp, slots[j], false);
                begun[j] = now_s();
                live++;
            }
        if (!live) break;
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            for (int j = 0; j < jobs; j++)
                if (pid[j] && now_s() - begun[j] > g_child_limit) { fprintf(stderr, "seed %llu: no answer within %d s of real time\n", (unsigned long long)sd[j], g_child_limit); kill(pid[j], SIGKILL); }
            usleep(200);
            continue;
        }
        for (int j = 0; j < jobs; j++) {
            if (pid[j] != p) continue;
            pid[j] = 0;
            live--;
            Result *r = slots[j];
            if (r->state != 1) { harness_errors++; fprintf(stderr, "seed %llu: child ended without a result (status %x)\n", (unsigned long long)sd[j], st); break; }
            runs++;
            bool was = false;
            for (auto &e : recheck) if (e.first == r->seed) { was = true; det_checked++; if (e.second != r->hash) { det_bad++; fprintf(stderr, "seed %llu is not deterministic\n", (unsigned long long)r->seed); } break; }
            if (!was && recheck.size() < 400) recheck.push_back({r->seed, r->hash});
            if (r->st.checks || r->violated) hashes.insert(r->hash); // only executions in which the oracle compared something
            vtime += r->now / 1e9;
            for (size_t k = 0; k < sizeof(Stats) / 8; k++) ((u64 *)&tot)[k] += ((u64 *)&r->st)[k];
            std::istringstream is(r->probes);
            std::string kv;
            while (is >> kv) { size_t e = kv.find('='); if (e != std::string::npos) { u64 v = strtoull(kv.c_str() + e + 1, 0, 10); probes[kv.substr(0, e)] += v; } }
            if (r->violated) {
                classes[r->cls]++;
                if (keep_going) printf("seed %llu %s: %s\n", (unsigned long long)r->seed, r->cls, r->msg);
                viols.push_back(*r);
                if (!keep_going) { stop = true; }
            }
        }
    }
    double explored = now_s() - t0;
    printf("%s: %llu runs, %zu distinct histories, %.1f s, %.1f s simulated, %llu operations, %llu messages, coverage %llu points, %llu repeat runs (%llu differ), %zu violations\n", P->id,
           (unsigned long long)runs, hashes.size(), explored, vtime, (unsigned long long)tot.ops, (unsigned long long)tot.msgs, (unsigned long long)cov_count(), (unsigned long long)det_checked, (unsigned long long)det_bad, viols.size());
    std::string replay_path;
    int rc = 0;
    if (harness_errors > runs / 100 + 1 || det_bad || runs == 0) rc = 4;
    if (!viols.empty() && !keep_going) {
        Result v = viols[0];
        Spec sp;
        sp.seed = v.seed;
        sp.sets = sets;
        if (!run_sync(sp, slot) || !slot->violated || slot->hash != v.hash || strcmp(slot->cls, v.cls)) {
            printf("seed %llu did not fail the same way a second time (%s / %s)\n", (unsigned long long)v.seed, v.cls, slot->cls);
            rc = 4;
        }
        else {
            printf("violation found: seed %llu, %s: %s\nminimising\n", (unsigned long long)v.seed, v.cls, v.msg);
            Spec m = minimise(sp, v.cls, jobs, min_secs);
            if (!run_sync(m, slot) || !slot->violated || strcmp(slot->cls, v.cls)) { m = sp; run_sync(m, slot); }
            replay_path = outdir + "/" + P->id + "-" + std::to_string(v.seed) + ".replay";
            write_replay(replay_path, m, *slot);
            printf("minimised to %llu operations: %s: %s\n", (unsigned long long)slot->nops, slot->cls, slot->msg);
            printf("REPLAY %s\n", replay_path.c_str());
            rc = 1;
        }
    }
    if (keep_going) for (auto &c : classes) printf("class %s: %llu\n", c.first.c_str(), (unsigned long long)c.second);
    if (!evid.empty()) {
        std::ofstream f(evid);
        f << "{\"runs\": " << runs << ", \"distinct\": " << hashes.size() << ", \"wall\": " << explored << ", \"virtual_s\": " << vtime << ", \"cov\": " << cov_count()
          << ", \"det_checked\": " << det_checked << ", \"det_bad\": " << det_bad << ", \"harness_errors\": " << harness_errors << ", \"violations\": " << viols.size() << ", \"first_seed\": " << seed_of(start) << ", \"stats\": {";
        const char *names[] = {"steps", "switches", "msgs", "bulks", "bulk_bytes", "io_ops", "preempts", "crashes", "restarts", "slow_msgs", "stalls", "clock_jumps", "short_writes", "short_reads", "eintrs", "io_errors", "enospc", "torn", "malloc_fails", "ops", "checks", "cells", "bb", "spurious"};
        for (size_t k = 0; k < sizeof(Stats) / 8; k++) f << (k ? ", " : "") << "\"" << names[k] << "\": " << ((u64 *)&tot)[k];
        f << "}, \"probes\": {";
        bool first = true;
        for (auto &k : probes) { f << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second; first = false; }
        f << "}, \"replay\": \"" << jesc(replay_path) << "\"";
        if (!viols.empty()) f << ", \"violation\": \"" << jesc(std::string(viols[0].cls) + ": " + viols[0].msg) << "\"";
        f << "}\n";
    }
    return rc;
}
