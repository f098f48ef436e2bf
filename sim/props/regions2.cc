// Region workloads with several clients, outstanding requests, restarts, crashes and disk faults.
#include "regions.h"
#include <algorithm>

void rand_sleep(Rng &r, Plan &p, int ph, int c) { op1(p, ph, c, K_SLEEP, (i64)(r.unit() < 0.5 ? r.range(1000, 2000000) : r.range(2000000, 2500000000ll))); }
void rand_ops(Rng &r, Plan &p, int ph, int c, Work &w, int n, bool ckpt) {
    for (int k = 0; k < n; k++) {
        int i = (int)r.below(w.objs.size());
        i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
        int what = (int)r.below(20);
        rand_region(r, w.objs[i], off, size, &w.prev[i]);
        if (what < 10) { op_rw(r, p, ph, c, 0, w.objs[i], true, off, size); w.prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]}); }
        else if (what < 14) op_rw(r, p, ph, c, 0, w.objs[i], false, off, size);
        else if (what < 15) op_read_all(r, p, ph, c, 0, w.objs[i]);
        else if (what < 16) op1(p, ph, c, FLUSH_OBJ, w.objs[i].slot);
        else if (what < 17) op1(p, ph, c, FLUSH_ALL);
        else if (what < 18 && ckpt) op1(p, ph, c, CKPT);
        else rand_sleep(r, p, ph, c);
    }
}
// ------------------------------------------------------------------ P02
static void p02_demo(Plan &p) { // a write whose placement is registered but whose data is under way hides completed data from a reader
    CFG.nserver = 2; CFG.nclient = 2;
    CFG.slow_prob = CFG.stall_prob = CFG.quantum = CFG.weight_spread = CFG.clock_jump = 0;
    CFG.nodes_per_host = 0; CFG.cache_max = 0; CFG.fill = 0;
    CFG.slow_prob = 0.3; CFG.slow_mean = 20e6; CFG.lat_mean = 50e3;
    Rng r;
    r.seed(1);
    p.phases.resize(1);
    op_cont(p, 0, 0, 0, "c0", true);
    ObjDef o;
    o.name = "o"; o.slot = 0; o.ndim = 1; o.dims[0] = 1280; o.dims[1] = o.dims[2] = 1; o.type = 0; o.unit = 4; o.part = 2;
    op_create_obj(p, 0, 0, o, 0);
    for (int k = 0; k < 20; k++) { i64 off[3] = {64 * k, 0, 0}, size[3] = {40, 1, 1}; op_rw(r, p, 0, 0, 0, o, true, off, size); }
    { i64 off[3] = {1260, 0, 0}, size[3] = {20, 1, 1}; op_rw(r, p, 0, 0, 0, o, true, off, size); } // the overlapping writes go to the other server
    for (int c = 0; c < 2; c++) op1(p, 0, c, K_BARRIER, 1);
    op_open_obj(p, 0, 1, o);
    for (int k = 0; k < 20; k++) { // reader and writer side by side
        i64 wo[3] = {64 * k + 30, 0, 0}, ws[3] = {20, 1, 1}, ro[3] = {64 * k, 0, 0}, rs[3] = {40, 1, 1};
        for (int c = 0; c < 2; c++) op1(p, 0, c, K_BARRIER, 10 + k);
        op_rw(r, p, 0, 0, 1, o, true, wo, ws);
        op1(p, 0, 1, K_SLEEP, 3000000);
        op_rw(r, p, 0, 1, 1, o, false, ro, rs);
    }
    op_close(p, 0);
}
static void p02_gen(Rng &r, Plan &p, int v) {
    swarm(r, 4, 3);
    if (CFG.demo == 1) { p02_demo(p); return; }
    CFG.nclient = 2 + (int)r.below(3);
    p.phases.resize(1);
    int nobj = 1 + (int)r.below(2);
    std::vector<ObjDef> objs;
    op_cont(p, 0, 0, 0, "c0", true);
    for (int i = 0; i < nobj; i++) {
        objs.push_back(rand_obj(r, strf("o%d", i), i));
        op_create_obj(p, 0, 0, objs[i], 0);
    }
    for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 1);
    std::vector<int> disjoint(nobj), dim(nobj);
    for (int i = 0; i < nobj; i++) { disjoint[i] = r.chance(0.5); dim[i] = (int)r.below(objs[i].ndim); }
    int rounds = 1 + (int)r.below(3);
    for (int c = 1; c < CFG.nclient; c++) for (int i = 0; i < nobj; i++) op_open_obj(p, 0, c, objs[i]);
    for (int rd = 0; rd < rounds; rd++) {
        for (int c = 0; c < CFG.nclient; c++) {
            std::vector<std::vector<std::vector<i64>>> prev(nobj);
            int n = 1 + (int)r.below(8);
            for (int k = 0; k < n; k++) {
                int i = (int)r.below(nobj);
                const ObjDef &o = objs[i];
                i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                int what = (int)r.below(16);
                bool wr = what < 9;
                rand_region(r, o, off, size, &prev[i]);
                // A read beside an overlapping write of another client, with the placement chosen at write time, may
                // return neither value: a recorded finding, shown by demo 1.
                bool own = o.part >= 2 && what < 13 && !wr && !CFG.demo;
                if (own && !disjoint[i]) continue;
                if ((wr || own) && disjoint[i]) { // clip to this client's slab
                    int d = dim[i];
                    i64 lo = o.dims[d] * c / CFG.nclient, hi = o.dims[d] * (c + 1) / CFG.nclient;
                    if (lo >= hi) continue;
                    off[d] = r.range(lo, hi - 1);
                    size[d] = r.range(1, hi - off[d]);
                }
                if (wr) { op_rw(r, p, 0, c, 0, o, true, off, size); prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]}); }
                else if (what < 13) op_rw(r, p, 0, c, 0, o, false, off, size);
                else if (what < 14) op1(p, 0, c, r.chance(0.5) ? FLUSH_OBJ : FLUSH_ALL, o.slot);
                else rand_sleep(r, p, 0, c);
            }
        }
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 10 + rd * 3);
        for (int c = 0; c < CFG.nclient; c++) if (c == 0 || r.chance(0.6)) for (int i = 0; i < nobj; i++) op_read_all(r, p, 0, c, 0, objs[i]);
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 11 + rd * 3);
        if (r.chance(0.5)) { op1(p, 0, 0, FLUSH_ALL); for (int i = 0; i < nobj; i++) op_read_all(r, p, 0, 0, 0, objs[i]); }
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 12 + rd * 3);
    }
    op_close(p, 0);
}
static void p02_check(Plan &p) { RegionRules ru; ru.agree = true; check_regions(p, ru); }
static Reg_ r02({"P02", p02_gen, p02_check, nullptr, 1, region_fill});

// ------------------------------------------------------------------ P03
static void p03_gen(Rng &r, Plan &p, int v) {
    swarm(r, 4, 2);
    p.phases.resize(1);
    for (int c = 0; c < CFG.nclient; c++) {
        op_cont(p, 0, c, 0, strf("c%d", c).c_str(), true);
        int nobj = 1 + (int)r.below(3);
        std::vector<ObjDef> objs;
        std::vector<std::vector<std::vector<i64>>> prev(nobj);
        for (int i = 0; i < nobj; i++) {
            objs.push_back(rand_obj(r, strf("o%d_%d", c, i), i, 64));
            op_create_obj(p, 0, c, objs[i], 0);
        }
        int rounds = 1 + (int)r.below(4), xs = 0;
        for (int rd = 0; rd < rounds && xs < 50; rd++) {
            int mode[3]; // with the placement chosen at write time, outstanding reads beside outstanding writes are a recorded finding of P02
            for (int i = 0; i < nobj; i++) mode[i] = objs[i].part < 2 ? -1 : (int)r.below(2);
            int n = 1 + (int)r.below(7);
            std::vector<int> sl, done;
            for (int k = 0; k < n; k++) {
                int i = (int)r.below(nobj);
                i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                bool wr = mode[i] < 0 ? r.chance(0.65) : mode[i];
                rand_region(r, objs[i], off, size, &prev[i]);
                op_xcreate(r, p, 0, c, xs, objs[i], wr, off, size);
                if (wr) prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]});
                sl.push_back(xs++);
            }
            std::vector<int> order = sl;
            for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.below(k)]);
            auto batch = [&](int kind, std::vector<int> ids) {
                AppOp &a = p.add(0, c, kind);
                a.a[0] = ids.size();
                for (size_t k = 0; k < ids.size(); k++) a.a[1 + k] = ids[k];
            };
            // start in groups
            for (size_t k = 0; k < order.size();) {
                if (r.chance(0.5)) op1(p, 0, c, X_START, order[k++]);
                else {
                    size_t m = 1 + r.below(order.size() - k);
                    batch(X_START_ALL, std::vector<int>(order.begin() + k, order.begin() + k + m));
                    k += m;
                }
                if (r.chance(0.2)) op1(p, 0, c, X_STATUS, order[r.below(k)]);
                if (r.chance(0.1)) rand_sleep(r, p, 0, c);
            }
            if (r.chance(0.2)) op1(p, 0, c, FLUSH_ALL);
            for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.below(k)]);
            bool close_early = r.chance(0.25);
            size_t stop = close_early || r.chance(0.2) ? r.below(order.size() + 1) : order.size(); // closing a request or an object waits
            for (size_t k = 0; k < stop;) {
                int m = (int)r.below(10);
                if (m < 3) op1(p, 0, c, X_STATUS, order[k + r.below(order.size() - k)]);
                else if (m < 4) { op1(p, 0, c, X_STATUS, order[k], 400, 200000000); op1(p, 0, c, X_WAIT, order[k++]); }
                else if (m < 7) op1(p, 0, c, X_WAIT, order[k++]);
                else { size_t g = 1 + r.below(stop - k); batch(X_WAIT_ALL, std::vector<int>(order.begin() + k, order.begin() + k + g)); k += g; }
                if (r.chance(0.1)) rand_sleep(r, p, 0, c);
            }
            if (close_early) {
                for (int i = 0; i < nobj; i++) { op1(p, 0, c, OBJ_CLOSE, i); op_open_obj(p, 0, c, objs[i]); }
            }
            for (int s : sl) op1(p, 0, c, X_CLOSE, s);
        }
        for (int i = 0; i < nobj; i++) op_read_all(r, p, 0, c, 60, objs[i]);
    }
    op_close(p, 0);
}
static void p03_check(Plan &p) {
    for (AppOp *o : p.all()) {
        if (o->status != 2) continue;
        if (o->kind == X_STATUS) {
            S.st.checks++;
            // 0 complete, 1 pending, 2 not found
            if (o->r[1] == 1 && o->ret >= 0 && o->r[0] != 0 && o->r[0] != 1) { fail("status", strf("%s: the status of a started transfer is %lld", describe(*o).c_str(), (long long)o->r[0])); return; }
            if (o->r[1] == 1 && o->ret < 0) { fail("status", strf("%s: asking for the status of a started transfer failed", describe(*o).c_str())); return; }
            if (o->r[1] >= 2 && o->r[0] == 1) { fail("status", strf("%s: a completed transfer is reported pending again", describe(*o).c_str())); return; }
            if (o->a[1] > 1 && o->r[1] == 1 && o->r[0] == 1) { fail("liveness", strf("%s: the transfer is still pending after %lld s", describe(*o).c_str(), (long long)(o->a[1] * o->a[2] / 1000000000))); return; }
        }
        if ((o->kind == X_WAIT || o->kind == X_WAIT_ALL || o->kind == X_START || o->kind == X_START_ALL) && o->ret < 0) { fail("transfer", strf("%s failed", describe(*o).c_str())); return; }
        if (o->kind == OBJ_CLOSE && o->ret < 0) { fail("transfer", strf("%s failed", describe(*o).c_str())); return; }
    }
    check_regions(p, RegionRules());
}
static Reg_ r03({"P03", p03_gen, p03_check, nullptr, 1, region_fill});

// ------------------------------------------------------------------ P04
static void p04_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 2);
    CFG.tmpfs_ckpt = r.chance(0.2);
    int nph = 2 + (int)r.below(3);
    p.phases.resize(nph);
    std::vector<Work> w(CFG.nclient);
    for (int c = 0; c < CFG.nclient; c++) {
        int nobj = 1 + (int)r.below(3);
        for (int i = 0; i < nobj; i++) w[c].objs.push_back(rand_obj(r, strf("o%d_%d", c, i), i));
        w[c].prev.resize(nobj);
    }
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("c%d", c).c_str(), ph == 0);
            for (auto &o : w[c].objs) { if (ph == 0) op_create_obj(p, ph, c, o, 0); else { op_open_obj(p, ph, c, o); if (r.chance(0.7)) op_read_all(r, p, ph, c, 0, o); } }
            if (ph + 1 < nph || r.chance(0.3)) rand_ops(r, p, ph, c, w[c], 2 + (int)r.below(12), true);
            for (auto &o : w[c].objs) if (ph + 1 == nph || r.chance(0.3)) op_read_all(r, p, ph, c, 0, o);
        }
        bool kill = r.chance(0.35);
        if (kill) { // everybody is done, one client takes a checkpoint, then the machine goes away
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500);
            op1(p, ph, 0, CKPT);
            if (r.chance(0.5)) rand_ops(r, p, ph, 0, w[0], 1 + (int)r.below(5), false);
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 501);
            p.phases[ph].end_close = false;
        }
        else op_close(p, ph);
    }
}
static void p04_check(Plan &p) {
    for (AppOp *o : p.all())
        if (o->status == 2 && o->phase > 0 && o->kind == OBJ_OPEN && o->ret <= 0) { fail("object_lost", strf("%s: the object is not found after the restart", describe(*o).c_str())); return; }
    check_regions(p, RegionRules());
}
static Reg_ r04({"P04", p04_gen, p04_check, nullptr, 1, region_fill});
