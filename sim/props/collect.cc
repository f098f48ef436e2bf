// P32: collective calls give every client what the one client that asks the servers got.
#include "meta.h"
#include <algorithm>
static void p32_gen(Rng &r, Plan &p, int) {
    swarm(r, 4, 4);
    CFG.nclient = 1 + (int)r.below(4) + (r.chance(0.7) ? 1 : 0);
    int nph = r.chance(0.35) ? 2 : 1;
    p.phases.resize(nph);
    int nobj = 1 + (int)r.below(5), ncont = 1 + (int)r.below(3);
    bool busy = r.chance(0.4); // single calls of the clients run beside the collective ones
    bool collide = r.chance(0.4);
    bool dels = r.chance(0.3); // objects are deleted and made anew; the region oracle knows objects by name, so no transfers then
    std::vector<ObjDef> objs;
    auto oname = [&](int i) { return collide ? colliding_name(r, "o", i) : strf("o%d", i); };
    auto cname = [&](int i) { return collide ? colliding_name(r, "k", i) : strf("k%d", i); };
    for (int i = 0; i < nobj; i++) {
        ObjDef o = rand_obj(r, oname(i), i, 128);
        if (CFG.nserver > 1 && o.part > 1) o.part &= 1;
        objs.push_back(o);
    }
    int bar = 100, round = 0;
    auto barrier = [&](int ph) { bar++; for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, bar); };
    auto coll = [&](int ph, AppOp &a) { a.a[38] = round; if (ph) {} };
    auto create = [&](int ph, int c, int i, bool col, int root) {
        op_create_obj(p, ph, c, objs[i], 0);
        AppOp &a = p.phases[ph].ops[c].back();
        a.a[8] = 1;
        if (col) { coll(ph, a); a.a[37] = root; }
    };
    auto open = [&](int ph, int c, int i, bool col) { op_open_obj(p, ph, c, objs[i]); if (col) coll(ph, p.phases[ph].ops[c].back()); };
    std::vector<std::vector<std::vector<i64>>> prev(nobj);
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        round++;
        for (int c = 0; c < CFG.nclient; c++) { AppOp &a = p.add(ph, c, CONT_CREATE_COL); a.a[0] = 0; sets(a.s1, "base"); coll(ph, a); }
        int rounds = 3 + (int)r.below(10);
        for (int rd = 0; rd < rounds; rd++) {
            round++;
            if (r.chance(0.7)) barrier(ph);
            int what = (int)r.below(10), i = (int)r.below(nobj), k = (int)r.below(ncont), root = (int)r.below(CFG.nclient);
            for (int c = 0; c < CFG.nclient; c++) {
                if (what < 4) create(ph, c, i, true, root);
                else if (what < 7) open(ph, c, i, true);
                else if (what < 8) { AppOp &a = p.add(ph, c, CONT_CREATE_COL); a.a[0] = 1 + k; sets(a.s1, cname(k)); coll(ph, a); }
                else { op_cont(p, ph, c, 1 + k, cname(k).c_str(), false); coll(ph, p.phases[ph].ops[c].back()); }
            }
            if (!busy) barrier(ph);
            for (int c = 0; c < CFG.nclient; c++) {
                int n = (int)r.below(6);
                for (int q = 0; q < n; q++) {
                    int j = r.chance(0.7) ? i : (int)r.below(nobj);
                    i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                    int w = (int)r.below(20);
                    if (dels && w < 10) w = w < 4 ? 15 : 10 + w;
                    if (!dels && w == 15) w = 3;
                    rand_region(r, objs[j], off, size, &prev[j]);
                    if (w < 7) { op_rw(r, p, ph, c, 0, objs[j], true, off, size); prev[j].push_back({off[0], off[1], off[2], size[0], size[1], size[2]}); }
                    else if (w < 10) op_rw(r, p, ph, c, 0, objs[j], false, off, size);
                    else if (w < 12) { AppOp &a = op_tag(p, ph, c, TAG_PUT, j, false, strf("t%d", (int)r.below(2))); rand_tag_value(r, a); }
                    else if (w < 13) op_tag(p, ph, c, TAG_GET, j, false, strf("t%d", (int)r.below(2)));
                    else if (w < 14) op_tag(p, ph, c, r.chance(0.7) ? TAG_GET : TAG_DEL, j, false, strf("t%d", (int)r.below(2)));
                    else if (w < 15) { AppOp &a = p.add(ph, c, r.chance(0.7) ? CONT_ADD : CONT_RM); a.a[0] = r.below(1 + ncont); a.a[1] = 1; a.a[2] = j; }
                    else if (w < 16) op1(p, ph, c, OBJ_DEL, j);
                    else if (w < 17) open(ph, c, j, false);
                    else if (w < 18) create(ph, c, j, false, 0);
                    else if (w < 19) op_cont(p, ph, c, 1 + k, cname(k).c_str(), r.chance(0.5));
                    else rand_sleep(r, p, ph, c);
                }
            }
            if (r.chance(0.1)) op1(p, ph, 0, CKPT);
        }
        barrier(ph);
        for (int i = 0; i < nobj; i++) {
            round++;
            bool col = r.chance(0.6);
            for (int c = 0; c < CFG.nclient; c++) { open(ph, c, i, col); if (!dels && (c == 0 || r.chance(0.5))) op_read_all(r, p, ph, c, 0, objs[i]); }
        }
        for (int k = 0; k < ncont; k++) { AppOp &a = p.add(ph, 0, CONT_PROBE); sets(a.s1, cname(k)); }
        op_close(p, ph);
    }
}
static void p32_check(Plan &p) {
    std::map<int, std::vector<AppOp *>> rounds;
    for (AppOp *o : p.all()) if (o->a[38]) rounds[(int)o->a[38]].push_back(o);
    for (auto &kv : rounds) {
        auto &v = kv.second;
        AppOp *root = v[0];
        for (AppOp *o : v) if (o->client == (o->kind == OBJ_CREATE ? o->a[37] : 0)) root = o;
        probe(root->ret > 0 ? "collective_ok" : "collective_refused");
        for (AppOp *o : v) {
            S.st.checks++;
            if (o->status != 2 || root->status != 2) continue;
            std::string what = describe(*o) + strf(" on client %d, on client %d", o->client, root->client);
            if ((o->ret > 0) != (root->ret > 0)) { fail("collective", what + strf(": one of them succeeded (%lld, %lld)", (long long)o->ret, (long long)root->ret)); return; }
            if (o->ret <= 0) continue;
            if (o->r[0] != root->r[0]) { fail("collective", what + strf(": the identifiers differ (%lld, %lld)", (long long)o->r[0], (long long)root->r[0])); return; }
            if (o->kind == OBJ_CREATE && o->r[1] != root->r[1]) { fail("collective", what + strf(": the metadata servers differ (%lld, %lld)", (long long)o->r[1], (long long)root->r[1])); return; }
            if (o->kind == OBJ_OPEN) {
                for (int i = 1; i <= 10; i++) if (o->r[i] != root->r[i]) { fail("collective", what + strf(": the properties differ (field %d: %lld, %lld)", i, (long long)o->r[i], (long long)root->r[i])); return; }
                if (o->nout != root->nout || memcmp(o->out, root->out, o->nout)) { fail("collective", what + ": the properties differ"); return; }
            }
        }
    }
    check_meta(p, MetaRules());
    if (S.violated) return;
    RegionRules ru;
    check_regions(p, ru);
}
static Reg_ r32({"P32", p32_gen, p32_check, nullptr, 1, region_fill});
