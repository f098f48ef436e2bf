// P31: what was flushed, or stayed idle for the flush interval, survives the death of the servers.
#include "regions.h"
#include <algorithm>
static void p31_gen(Rng &r, Plan &p, int) {
    swarm(r, 3, 2);
    if (CFG.cache_max == 64 || CFG.cache_max == 300) CFG.cache_max = r.chance(0.3) ? 300 : 0; // mostly large enough to keep the data until it is flushed
    bool slow = (CFG.slow_prob && CFG.slow_mean > 100e6) || (CFG.stall_prob && CFG.stall_mean > 100e6);
    u64 D = slow ? 8000000000ull : 2000000000ull;
    if (CFG.cache_flush_s == 0) CFG.cache_flush_s = r.chance(0.5) ? 1 : -1;
    p.phases.resize(2);
    p.phases[1].restart = true;
    p.phases[0].end_close = false;
    std::vector<Work> ws(CFG.nclient);
    int bar = 100;
    auto barrier = [&](int ph) { bar++; for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, bar); };
    for (int c = 0; c < CFG.nclient; c++) {
        Work &w = ws[c];
        int n = 1 + (int)r.below(3);
        op_cont(p, 0, c, 0, strf("c%d", c).c_str(), true);
        for (int i = 0; i < n; i++) {
            ObjDef o = rand_obj(r, strf("o%d_%d", c, i), i, 128);
            o.part &= 1;
            w.objs.push_back(o);
            op_create_obj(p, 0, c, o, 0);
        }
        w.prev.resize(n);
        for (int i = 0; i < n; i++)
            for (int k = 0; k < 1 + (int)r.below(4); k++) {
                i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                rand_region(r, w.objs[i], off, size, &w.prev[i]);
                op_rw(r, p, 0, c, 0, w.objs[i], true, off, size);
                w.prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]});
            }
    }
    barrier(0);
    op1(p, 0, 0, CKPT);
    barrier(0);
    int rounds = 1 + (int)r.below(3);
    for (int rd = 0; rd < rounds; rd++) {
        for (int c = 0; c < CFG.nclient; c++) {
            Work &w = ws[c];
            int n = 1 + (int)r.below(6);
            for (int k = 0; k < n; k++) {
                int i = (int)r.below(w.objs.size());
                auto &q = w.prev[i][r.below(w.prev[i].size())];
                i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                bool part = r.chance(0.5), any = r.chance(0.15);
                for (int d = 0; d < w.objs[i].ndim; d++) {
                    i64 a = part ? r.range(0, q[3 + d] - 1) : 0;
                    off[d] = q[d] + a;
                    size[d] = part ? r.range(1, q[3 + d] - a) : q[3 + d];
                }
                if (any) rand_region(r, w.objs[i], off, size, &w.prev[i]);
                if (r.chance(0.15)) op_rw(r, p, 0, c, 0, w.objs[i], false, off, size);
                else op_rw(r, p, 0, c, 0, w.objs[i], true, off, size);
            }
            if (r.chance(0.3)) rand_sleep(r, p, 0, c);
            if (r.chance(0.6)) {
                if (r.chance(0.6)) op1(p, 0, c, FLUSH_OBJ, (i64)r.below(w.objs.size()));
                else op1(p, 0, c, FLUSH_ALL);
                op1(p, 0, c, K_SLEEP, (i64)D, 0, 0, 31);
            }
        }
        int F = CFG.cache_flush_s < 0 ? 30 : CFG.cache_flush_s;
        if (r.chance(F < 5 ? 0.5 : 0.1)) {
            barrier(0);
            op1(p, 0, 0, K_SLEEP, F * 1000000000ll + (i64)D, 0, 0, 32);
            barrier(0);
        }
    }
    barrier(0);
    for (int c = 0; c < CFG.nclient; c++) {
        Work &w = ws[c];
        op_cont(p, 1, c, 0, strf("c%d", c).c_str(), true);
        for (auto &o : w.objs) { op_open_obj(p, 1, c, o); op_read_all(r, p, 1, c, 0, o); }
    }
    op_close(p, 1);
}
static void p31_check(Plan &p) { RegionRules ru; ru.agree = false; check_regions(p, ru); }
static Reg_ r31({"P31", p31_gen, p31_check, nullptr, 1, region_fill});
