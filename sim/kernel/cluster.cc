#include <memory>
// Runs a plan: servers and clients of several incarnations over one simulated disk and network.
#include "plan.h"
#include <dlfcn.h>
#include <math.h>
#include <link.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>

Cluster CL;
Plan *PLAN;
std::map<std::string, u64> PROBE;
std::vector<Prop> PROPS;
std::set<int> DROP;
static const Prop *g_prop;
void set_prop(const Prop *p) { g_prop = p; }

u64 h64(u64 a, u64 b, u64 c) {
    u64 x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull) * 0xbf58476d1ce4e5b9ull ^ (c + 0x1234567) * 0x94d049bb133111ebull;
    x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
    return x;
}
std::string strf(const char *fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

// ------------------------------------------------------------ pristine copies of the code
struct Copy { void *h; u64 base; };
static std::vector<Copy> g_copies[2];
static size_t g_used[2];
static void copy_file(const std::string &a, const std::string &b) {
    FILE *f = fopen(a.c_str(), "rb"), *g = fopen(b.c_str(), "wb");
    if (!f || !g) { fprintf(stderr, "cannot copy %s to %s\n", a.c_str(), b.c_str()); exit(3); }
    char buf[1 << 16];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, g);
    fclose(f);
    fclose(g);
}
void preload(const char *dir, int ns, int nc) {
    char tmp[] = "/tmp/simcopiesXXXXXX";
    if (!mkdtemp(tmp)) { perror("mkdtemp"); exit(3); }
    for (int k = 0; k < 2; k++)
        for (int i = 0; i < (k ? ns : nc); i++) {
            std::string f = std::string(tmp) + "/" + (k ? "s" : "c") + std::to_string(i) + ".so";
            copy_file(std::string(dir) + (k ? "/libserver.so" : "/libclient.so"), f);
            void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
            struct link_map *lm;
            dlinfo(h, RTLD_DI_LINKMAP, &lm);
            g_copies[k].push_back({h, (u64)lm->l_addr});
            unlink(f.c_str());
        }
    rmdir(tmp);
}
Node *new_node(bool server, int rank, int inc, int group) {
    Node *n = new Node;
    n->id = (int)S.nodes.size();
    n->server = server;
    n->rank = rank;
    n->inc = inc;
    n->group = group;
    n->pid = 1000 + n->id;
    n->host = CFG.nodes_per_host > 0 ? rank / CFG.nodes_per_host : 0;
    if (g_used[server] >= g_copies[server].size()) { fprintf(stderr, "not enough copies of the code\n"); _exit(3); }
    Copy c = g_copies[server][g_used[server]++];
    n->dl = c.h;
    n->base = c.base;
    n->cwd = "/run";
    if (CFG.weight_spread > 0) n->weight = exp(-S.rng.unit() * CFG.weight_spread);
    if (CFG.clock_skew > 0) n->clock_off = (i64)((S.rng.unit() * 2 - 1) * CFG.clock_skew * 1e9);
    n->env["PDC_TMPDIR"] = "/run/tmp";
    n->env["PDC_DATA_LOC"] = "/run/data";
    if (CFG.cache_max) n->env["PDC_SERVER_CACHE_MAX_SIZE"] = std::to_string(CFG.cache_max);
    if (CFG.cache_flush_s >= 0) n->env["PDC_SERVER_CACHE_FLUSH_FREQUENCY_S"] = std::to_string(CFG.cache_flush_s);
    if (CFG.tmpfs_ckpt) n->env["PDC_CHECKPOINT_TMPFS"] = "1";
    if (CFG.sieving) n->env["PDC_DATA_SIEVING"] = "1";
    if (CFG.gen_hist) n->env["PDC_GEN_HIST"] = "1";
    if (!CFG.auto_ckpt) n->env["PDC_DISABLE_CHECKPOINT"] = "TRUE";
    if (CFG.nclient_per_server) n->env["PDC_NCLIENT_PER_SERVER"] = std::to_string(CFG.nclient_per_server);
    n->env["HG_TRANSPORT"] = "sim";
    n->env["SLURM_JOB_ID"] = "1";
    S.nodes.push_back(n);
    return n;
}
Node *new_plain_node() {
    Node *n = new Node;
    n->id = (int)S.nodes.size();
    n->server = true;
    n->rank = 0;
    n->pid = 1000 + n->id;
    n->cwd = "/run";
    if (CFG.weight_spread > 0) n->weight = exp(-S.rng.unit() * CFG.weight_spread);
    S.nodes.push_back(n);
    return n;
}
void *server_sym(Node *n, const char *name) { return dlsym(n->dl, name); }
void mpi_group(int group, const std::vector<Node *> &members);
void disk_mkdir(const std::string &p);

void start_servers(bool restart) {
    disk_mkdir("/run/tmp");
    disk_mkdir("/run/data");
    CL.inc++;
    CL.srv.clear();
    for (int i = 0; i < CFG.nserver; i++) CL.srv.push_back(new_node(true, i, CL.inc, CL.inc * 2));
    mpi_group(CL.inc * 2, CL.srv);
    for (Node *n : CL.srv) {
        auto fn = (int (*)(int, char **))dlsym(n->dl, "server_run");
        spawn(n, "main", [n, fn, restart] {
            static char a0[] = "pdc_server", a1[] = "restart";
            char *argv[] = {a0, restart ? a1 : nullptr, nullptr};
            int r = fn(restart ? 2 : 1, argv);
            n->exited = true;
            n->exit_code = r;
            simlog("server returned %d", r);
            kill_node(n, "returned");
        }, 8 << 20);
    }
}
static int alive(std::vector<Node *> &v) { int k = 0; for (Node *n : v) k += n->alive; return k; }

// ------------------------------------------------------------ application side
static std::map<int, size_t> g_at;  // client -> next operation of the phase
static size_t g_phase;
static std::map<std::pair<int, int>, XRef> g_x;
XRef &xref(int c, int s) { return g_x[{c, s}]; }
void (*ON_XDONE)(AppOp *, AppOp *, AppOp *, const void *, u64);
static u64 g_seq;
u64 op_seq() { return g_seq; }
static std::map<int, int> g_barrier;
static int g_ending;
static bool fired(const AppOp &o) { return DROP.count(o.id); }
extern "C" {
AppOp *sim_next_op(int client) {
    auto &v = PLAN->phases[g_phase].ops;
    if ((int)v.size() <= client) return nullptr;
    size_t &i = g_at[client];
    while (i < v[client].size() && fired(v[client][i])) i++;
    if (i >= v[client].size()) return nullptr;
    AppOp *o = &v[client][i++];
    o->t0 = ++g_seq;
    o->ns0 = S.now;
    if (o->kind == X_CREATE) g_x[{client, (int)o->a[0]}] = XRef{o, nullptr};
    if (o->kind == X_START) { XRef &x = xref(client, (int)o->a[0]); x.start = o; if (x.create) o->aux = x.create; }
    if (o->kind == X_START_ALL) for (int k = 0; k < o->a[0]; k++) xref(client, (int)o->a[1 + k]).start = o;
    simlog("OP %s", describe(*o).c_str());
    return o;
}
void sim_op_done(AppOp *o) {
    o->t1 = ++g_seq;
    o->ns1 = S.now;
    S.st.ops++;
    if (S.last_progress < S.now) S.last_progress = S.now;
    S.mix(o->id * 7 + o->ret);
    simlog("   done #%d ret %lld r0 %lld%s", o->id, (long long)o->ret, (long long)o->r[0], o->status == 3 ? " (skipped)" : "");
    if (o->kind == X_CLOSE && o->ret >= 0) g_x.erase({o->client, (int)o->a[0]});
    point(10);
}
void sim_fill(AppOp *o, void *buf, u64 n) { if (g_prop && g_prop->fill) g_prop->fill(o, buf, n); }
void sim_result(AppOp *o, const void *b, u64 n) {
    free(o->out);
    o->out = malloc(n ? n : 1);
    memcpy(o->out, b, n);
    o->nout = n;
    u64 h = 0;
    for (u64 i = 0; i < n; i++) h = h * 131 + ((const uint8_t *)b)[i];
    (void)h;
}
void sim_xdone(AppOp *o, int slot, const void *buf, u64 n) {
    o->t1 = ++g_seq;
    XRef x = slot >= 0 ? xref(o->client, slot) : XRef{nullptr, nullptr};
    u64 h = 7;
    for (u64 i = 0; i < n; i++) h = h * 131 + ((const uint8_t *)buf)[i];
    S.mix(h);
    if (ON_XDONE) ON_XDONE(o, x.create, x.start, buf, n);
}
void sim_barrier(AppOp *o) { // among the clients whose plan holds a barrier with the same number
    int want = 0;
    for (auto &c : PLAN->phases[g_phase].ops)
        for (auto &p : c)
            if (p.kind == K_BARRIER && p.a[0] == o->a[0] && !fired(p)) want++;
    int &k = g_barrier[(int)o->a[0]];
    k++;
    if (k >= want) { if (S.last_progress < S.now) S.last_progress = S.now; wake_all(&k); return; }
    while (k < want) block(&k, "barrier");
}
void sim_probe(AppOp *o) { // ret: -1 no such container, else the number of objects; r0 id, result ids
    uint32_t h = 5381;
    std::string name = std::string(o->s1) + std::string(o->a[36] > 0 ? o->a[36] : 0, 'n');
    for (const char *c = name.c_str(); *c; c++) h = h * 33 + (uint32_t)*c;
    Node *n = CL.srv[h % CL.srv.size()];
    auto fn = (int (*)(const char *, u64 *, u64 *, int))server_sym(n, "sim_probe_container");
    u64 id = 0, ids[512];
    o->ret = n->alive ? fn(name.c_str(), &id, ids, 512) : -3;
    o->r[0] = (i64)id;
    if (o->ret > 0) sim_result(o, ids, 8 * (o->ret < 512 ? o->ret : 512));
}
void sim_nap(u64 ns) { u64 e = S.now + ns; if (S.last_progress < e) S.last_progress = e; while (S.now < e) { block(nullptr, "nap", e - S.now); } if (S.last_progress < S.now) S.last_progress = S.now; }
}
static void spawn_clients() {
    CL.cli.clear();
    for (int i = 0; i < CFG.nclient; i++) CL.cli.push_back(new_node(false, i, CL.inc, CL.inc * 2 + 1));
    mpi_group(CL.inc * 2 + 1, CL.cli);
    for (Node *n : CL.cli) {
        auto fn = (int (*)(int))dlsym(n->dl, "app_main");
        int rank = n->rank;
        spawn(n, "app", [n, fn, rank] {
            int r = fn(rank);
            n->exited = true;
            n->exit_code = r;
            kill_node(n, "done");
        }, 4 << 20);
    }
}
static bool server_lost() {
    for (Node *n : CL.srv) if (!n->alive) return true;
    return false;
}
bool mem_ok() {
    std::string why;
    if (mem_check_all(&why)) return true;
    fail("memory", why);
    return false;
}
// Did every server have a complete checkpoint before this phase?
static bool durable_before(Plan &p, size_t phase) {
    for (size_t k = 0; k < phase; k++) {
        if (p.phases[k].started && p.phases[k].end_close && !p.phases[k].crashed && !p.phases[k].faulted) return true;
        for (auto &c : p.phases[k].ops) for (auto &o : c) if (o.kind == CKPT && o.client == 0 && o.status == 2 && o.ret >= 0) return true;
    }
    return false;
}
// Run every phase. A server that stops without having been told to is a violation unless the phase crashes it.
void run_plan(Plan &p) {
    PLAN = &p;
    for (g_phase = 0; g_phase < p.phases.size() && !S.stopping; g_phase++) {
        Phase &ph = p.phases[g_phase];
        g_at.clear();
        g_barrier.clear();
        g_x.clear();
        ph.t_begin = S.now;
        DISK.crashed = false;
        DISK.crash_armed = false;
        DISK.plans.clear();
        bool may_crash = false;
        for (auto &f : ph.faults) {
            if (DROP.count(f.id)) continue;
            if (f.kind == "crash") {
                may_crash = true;
                DISK.crash_armed = true;
                DISK.crash_seen = 0;
                DISK.crash_at = f.nth;
                DISK.crash_rank = f.rank;
                DISK.crash_match = f.match;
                if (f.after_ns) {
                    DISK.crash_armed = false;
                    at(S.now + f.after_ns, [] { if (!DISK.crashed) { DISK.crashed = true; S.st.crashes++; simlog("CRASH by the clock"); } });
                }
            }
            if (f.kind == "disk") DISK.plans.push_back(f.disk);
        }
        if (ph.restart) S.st.restarts++;
        start_servers(ph.restart);
        run_until([&] {
            if (DISK.crashed) return true;
            if (server_lost()) return true;
            for (Node *n : CL.srv) if (!n->loaded_ready) return false;
            return true;
        }, "servers accept requests");
        if (S.stopping) return;
        if (!DISK.crashed && server_lost()) {
            ph.started = false;
            if (ph.expect_start || durable_before(p, g_phase)) { fail("start", strf("a server exited while %s in phase %zu", ph.restart ? "restarting from its checkpoint" : "starting", g_phase)); return; }
            ph.t_end = S.now;
            for (Node *n : CL.srv) kill_node(n, "stop");
            continue;
        }
        if (!DISK.crashed) {
            spawn_clients();
            run_until([&] { return DISK.crashed || !alive(CL.cli) || (!ph.end_close && server_lost()) || (ph.end_close && server_lost()); }, "client operations");
            if (S.stopping) return;
            if (!DISK.crashed && ph.end_close) {
                // all clients finish; servers were told to close by the plan's CLOSE_SERVERS
                run_until([&] { return DISK.crashed || ((ph.loose_close || !alive(CL.cli)) && !alive(CL.srv)); }, "orderly close of all servers");
                if (S.stopping) return;
                if (ph.loose_close && !DISK.crashed) { // answers that are still under way arrive
                    auto late = std::make_shared<bool>(false);
                    at(S.now + 900000000, [late] { *late = true; });
                    run_until([&] { return *late || !alive(CL.cli); }, "late answers");
                    if (S.stopping) return;
                }
            }
            if (!DISK.crashed && !ph.end_close && server_lost()) { fail("crash", "a server exited by itself"); return; }
        }
        ph.crashed = DISK.crashed;
        u64 closing = ~0ull;
        for (auto &c : ph.ops) for (auto &o : c) if (o.kind == CLOSE_SERVERS && o.status) closing = std::min(closing, o.t0);
        for (auto &d : DISK.plans) {
            if (!d.fired) continue;
            ph.any_fault = true;
            if (d.match != "pdc_data") ph.faulted = true;
            else if (d.last >= closing && (d.err == "EIO" || d.err == "ENOSPC")) ph.faulted = true; // data may miss what the close should have stored
        }
        if (ph.crashed) probe("phase_crashed");
        ph.t_end = S.now;
        for (Node *n : CL.cli) kill_node(n, "phase ends");
        for (Node *n : CL.srv) { ph.servers_exited += n->exited; kill_node(n, ph.end_close && !ph.crashed ? "phase ends" : "killed"); }
        if (!mem_ok()) return;
        S.now += 1000000;
    }
}
const char *KN[] = {"nop", "sleep", "barrier", "cont_create", "cont_create_col", "cont_open", "cont_close", "cont_del", "cont_info", "obj_create", "obj_open", "obj_close", "obj_del", "obj_info",
    "xfer_create", "xfer_start", "xfer_status", "xfer_wait", "xfer_close", "xfer_start_all", "xfer_wait_all", "flush_obj", "flush_all", "checkpoint", "close_servers", "tag_put", "tag_get", "tag_del",
    "cont_add", "cont_rm", "query_tag", "dart_insert", "dart_delete", "dart_search", "query", "lock", "unlock", "buf_map", "buf_unmap", "put_data", "get_data",
    "h_make", "h_close", "h_use", "h_set", "h_xfer", "h_map", "h_iter", "list_all", "query_name", "set_dims", "meta_query", "compute", "mlock", "munlock", "cont_probe", "str_tag", "meta_upd", "obj_del_name"};
std::string describe(const AppOp &o) {
    std::string s = strf("#%d phase %d client %d %s", o.id, o.phase, o.client, KN[o.kind]);
    if (o.s1[0]) s += std::string(" '") + o.s1 + "'";
    if (o.s2[0]) s += std::string(" '") + o.s2 + "'";
    int last = 39;
    while (last >= 0 && o.a[last] == 0) last--;
    s += " [";
    for (int i = 0; i <= last && i < 20; i++) s += strf(i ? " %lld" : "%lld", (long long)o.a[i]);
    return s + "]";
}
