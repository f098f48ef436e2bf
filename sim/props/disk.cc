// Disk faults below the region data (P24).
#include "regions.h"
#include <algorithm>

static void p24_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 2);
    if (r.chance(0.5)) { CFG.short_write = r.chance(0.5) ? 0.05 : 0.5; CFG.short_read = r.chance(0.5) ? 0.05 : 0.5; }
    if (r.chance(0.4)) CFG.eintr = r.chance(0.5) ? 0.05 : 0.4;
    int nph = 2 + (int)r.below(3);
    p.phases.resize(nph);
    std::vector<Work> w(CFG.nclient);
    for (int c = 0; c < CFG.nclient; c++) {
        int nobj = 1 + (int)r.below(3);
        for (int i = 0; i < nobj; i++) w[c].objs.push_back(rand_obj(r, strf("o%d_%d", c, i), i));
        w[c].prev.resize(nobj);
    }
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        bool last = ph + 1 == nph;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("c%d", c).c_str(), ph == 0);
            for (auto &o : w[c].objs) { if (ph == 0) op_create_obj(p, ph, c, o, 0); else { op_open_obj(p, ph, c, o); if (r.chance(0.7)) op_read_all(r, p, ph, c, 0, o); } }
            if (!last || r.chance(0.5)) rand_ops(r, p, ph, c, w[c], 2 + (int)r.below(12), true);
            if (r.chance(0.3)) { // the object's data is flushed over and over while new data arrives
                int n = 1 + (int)r.below(4);
                for (int k = 0; k < n; k++) { op1(p, ph, c, FLUSH_ALL); rand_ops(r, p, ph, c, w[c], 1 + (int)r.below(3), false); }
            }
            for (auto &o : w[c].objs) if (last || r.chance(0.6)) op_read_all(r, p, ph, c, 0, o);
        }
        if (!last && r.chance(0.35)) { // everybody is done, one client takes checkpoints until one succeeds, then the machine goes away
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500);
            int n = 1 + (int)r.below(3);
            for (int k = 0; k < n; k++) op1(p, ph, 0, CKPT);
            if (r.chance(0.5)) rand_ops(r, p, ph, 0, w[0], 1 + (int)r.below(5), false);
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 501);
            p.phases[ph].end_close = false;
        }
        else op_close(p, ph);
        if (r.chance(ph + 1 < nph ? 0.85 : 0.4)) {
            int nf = 1 + (int)r.below(2);
            for (int k = 0; k < nf; k++) {
                Fault f;
                f.id = p.next_id++;
                f.kind = "disk";
                static const char *E[] = {"EIO", "ENOSPC", "EIO", "ENOSPC", "short", "EINTR"};
                f.disk.err = E[r.below(6)];
                f.disk.match = "pdc_data";
                static const char *K[] = {"write", "write", "write", "write", "write", "mkdir", "create"};
                f.disk.kind = f.disk.err == "short" || f.disk.err == "EINTR" ? "write" : K[r.below(7)];
                f.disk.nth = r.below(r.chance(0.5) ? 3 : 30);
                if (f.disk.kind == "mkdir" || f.disk.kind == "create") f.disk.nth = r.below(4);
                f.disk.keep = r.chance(0.5) ? -1 : (i64)r.below(200);
                f.disk.count = r.chance(0.5) ? 1 : r.chance(0.7) ? 1 + (int)r.below(10) : 100000;
                if (f.disk.err == "EINTR") f.disk.count = std::min(f.disk.count, 50);
                p.phases[ph].faults.push_back(f);
            }
        }
    }
}
static void p24_check(Plan &p) {
    for (AppOp *o : p.all()) {
        if (o->status != 2) continue;
        Phase &ph = p.phases[o->phase];
        if (o->phase > 0 && o->kind == OBJ_OPEN && o->ret <= 0) {
            bool must = true; // created in phase 0, and metadata is never faulted
            for (int k = 0; k < o->phase; k++)
                if (!p.phases[k].end_close) {
                    bool ck = false;
                    for (AppOp *c : p.all()) if (c->kind == CKPT && c->client == 0 && c->status == 2 && c->phase <= k && c->ret >= 0) ck = true;
                    if (!ck) must = false;
                }
            if (must) { fail("object_lost", strf("%s: the object is not found after the restart", describe(*o).c_str())); return; }
        }
        if (o->kind == CKPT && o->client == 0 && o->ret < 0) { if (!ph.any_fault) { fail("checkpoint", strf("%s failed without an error of the disk", describe(*o).c_str())); return; } probe("checkpoint refused"); }
        if ((o->kind == X_WAIT || o->kind == X_WAIT_ALL || o->kind == X_START || o->kind == X_START_ALL) && o->ret < 0) {
            // an object that was lost with a phase that could not be stored cannot be used
            fail("transfer", strf("%s failed", describe(*o).c_str()));
            return;
        }
    }
    RegionRules ru;
    ru.placement = true;
    ru.crash_torn = true; // the bytes of a write that failed half way are mixed in until it is repeated
    check_regions(p, ru);
}
static Reg_ r24({"P24", p24_gen, p24_check, nullptr, 1, region_fill});
