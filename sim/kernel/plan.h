// Workload plans, recorded history and the interface of a property.
#pragma once
#include "sim.h"
#include "app.h"
#include <set>
#include <string.h>

struct Fault { // part of a plan; `id` lets the minimiser drop it
    int id = 0;
    std::string kind; // crash | disk
    Disk::Plan disk;
    int rank = -1;       // crash: server rank (-1 any)
    i64 nth = 0;         // crash: the n-th matching disk operation
    std::string match;   // crash: path substring
    u64 after_ns = 0;    // crash: or at this time after the phase began
};
struct Phase {
    bool restart = false;
    bool end_close = true;               // orderly close by client 0 at the end; otherwise all processes are killed
    bool expect_start = true;
    bool loose_close = false;            // some clients are still at work when the servers are told to close: only the servers have to stop
    std::vector<std::vector<AppOp>> ops; // per client
    std::vector<Fault> faults;
    // filled by the run
    bool crashed = false, started = true, faulted = false, any_fault = false; // faulted: a disk fault fired that may have kept the close from storing everything
    int servers_exited = 0;
    u64 t_begin = 0, t_end = 0;
};
struct Plan {
    std::vector<Phase> phases;
    int next_id = 1;
    std::map<std::string, std::string> note;
    AppOp &add(size_t phase, int client, int kind) {
        Phase &p = phases[phase];
        if ((int)p.ops.size() <= client) p.ops.resize(client + 1);
        AppOp o;
        memset(&o, 0, sizeof o);
        o.kind = kind; o.client = client; o.phase = (int)phase; o.id = next_id++;
        p.ops[client].push_back(o);
        return p.ops[client].back();
    }
    std::vector<AppOp *> all() { std::vector<AppOp *> v; for (auto &p : phases) for (auto &c : p.ops) for (auto &o : c) v.push_back(&o); return v; }
    std::set<int> done_ids;
};
inline void sets(char *d, const std::string &s) { strncpy(d, s.c_str(), 191); d[191] = 0; }
struct Prop {
    const char *id;
    void (*gen)(Rng &, Plan &, int variant); // build the workload and set CFG
    void (*check)(Plan &);                   // judge the recorded history: calls fail()
    void (*run)(Rng &);                      // component simulation instead of a cluster
    int variants;
    void (*fill)(AppOp *, void *, u64);      // bytes an operation writes
};
extern std::vector<Prop> PROPS;
struct Reg_ { Reg_(const Prop &p) { PROPS.push_back(p); } };
extern Plan *PLAN;
extern std::map<std::string, u64> PROBE; // rare conditions seen in this run
inline void probe(const char *k, u64 n = 1) { PROBE[k] += n; }
u64 h64(u64 a, u64 b = 0, u64 c = 0);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string describe(const AppOp &o);
extern std::set<int> DROP;
extern const char *KN[];
struct XRef { AppOp *create; AppOp *start; };  // transfer request currently in a slot of a client
XRef &xref(int client, int slot);
extern void (*ON_XDONE)(AppOp *op, AppOp *create, AppOp *start, const void *buf, u64 n);
void common_cluster_cfg(Rng &r);
