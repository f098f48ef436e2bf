// Region workloads and the region data oracle.
#pragma once
#include "../kernel/plan.h"
#include <vector>
struct ObjDef { std::string name; int ndim; i64 dims[3]; int type; int unit; int part; int slot; int cons = 0; };
struct RW { // one transfer that was started
    bool write;
    AppOp *create, *start;
    std::string obj;
    int ndim; i64 off[3], size[3]; int unit;
    u64 t0, t1;       // start invoked, completion seen (~0 if never)
    int phase;
    bool failed = false;
    std::vector<uint8_t> data; // what a read returned
    i64 cells() const { i64 n = 1; for (int i = 0; i < ndim; i++) n *= size[i]; return n; }
};
struct RegionHist {
    std::vector<RW> w, r;
    struct Dur { u64 t0, t1; int phase; };
    std::vector<Dur> durable; // invocation and return of acknowledged checkpoints and orderly closes
    struct Flush { u64 t0; int phase; std::string obj; bool idle; u64 t1; }; // requested flushes ("" every object) and idle periods, each followed by enough time
    std::vector<Flush> flushed;
    bool stored(const RW &w) const; // a later flush stored w where the checkpoint already knows its region
};
void region_value(u64 wid, i64 lin, int unit, uint8_t *out);
void region_fill(AppOp *o, void *buf, u64 n);
RegionHist region_history(Plan &p);
i64 lin_of(const AppOp *x, i64 k, i64 *c);
bool covers(const RW &w, const i64 *c);
struct RegionRules { bool crash_torn = false, placement = false; bool agree = true; };
void check_regions(Plan &p, const RegionRules &ru);
ObjDef rand_obj(Rng &r, const std::string &name, int slot, int maxcells = 256);
void op_create_obj(Plan &p, int ph, int c, const ObjDef &o, int cont);
void op_open_obj(Plan &p, int ph, int c, const ObjDef &o);
AppOp &op_xcreate(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o, bool write, const i64 *off, const i64 *size);
void rand_region(Rng &r, const ObjDef &o, i64 *off, i64 *size, const std::vector<std::vector<i64>> *prev = nullptr);
void op_rw(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o, bool write, const i64 *off, const i64 *size, bool wait = true);
void op_read_all(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o);
void swarm(Rng &r, int maxserver, int maxclient);
void op1(Plan &p, int ph, int c, int kind, i64 a0 = 0, i64 a1 = 0, i64 a2 = 0, i64 a3 = 0);
void op_cont(Plan &p, int ph, int c, int slot, const char *name, bool create);
void op_close(Plan &p, int ph);
struct Work { // one client's operations on a set of objects
    std::vector<ObjDef> objs;
    std::vector<std::vector<std::vector<i64>>> prev;
};
void rand_sleep(Rng &r, Plan &p, int ph, int c);
void rand_ops(Rng &r, Plan &p, int ph, int c, Work &w, int n, bool ckpt);
