// P26: whole data items stored and fetched in one call each.
#include "meta.h"

namespace {
void p26_check(Plan &p) {
    std::map<std::string, std::vector<AppOp *>> put;
    for (AppOp *o : p.all()) if (o->kind == PUT_DATA && o->status == 2) put[o->s1].push_back(o);
    for (auto &kv : put) { // a name is stored once
        int ok = 0;
        for (AppOp *o : kv.second) ok += o->ret > 0;
        S.st.checks++;
        if (ok > 1) { fail("put-twice", strf("'%s' was stored %d times", kv.first.c_str(), ok)); return; }
        if (!ok) { fail("put-fails", describe(*kv.second[0]) + strf(" returns %lld and no other client stored the name", (long long)kv.second[0]->ret)); return; }
    }
    for (auto &ph : p.phases)
        for (auto &c : ph.ops) {
            std::map<int, std::string> slot;
            for (auto &o : c) {
                if (o.status != 2) continue;
                int s = (int)o.a[0];
                if (o.kind == PUT_DATA || o.kind == OBJ_OPEN) { if (o.ret > 0) slot[s] = o.s1; else slot.erase(s); }
                if (o.kind == OBJ_OPEN && o.ret <= 0)
                    for (AppOp *w : put[o.s1]) if (w->ret > 0 && w->t1 < o.t0) { fail("open-fails", describe(o) + " after " + describe(*w)); return; }
                if (o.kind != GET_DATA || !slot.count(s)) continue;
                AppOp *w = nullptr;
                for (AppOp *x : put[slot[s]]) if (x->ret > 0) w = x;
                if (!w || w->t1 > o.t0) continue;
                S.st.checks++;
                S.st.cells += o.a[1];
                if (w->client != o.client) probe("other_client");
                if (w->phase != o.phase) probe("after_restart");
                if (o.ret < 0) { fail("get-fails", describe(o) + strf(" returns %lld; ", (long long)o.ret) + describe(*w)); return; }
                for (u64 i = 0; i < (u64)o.a[1] && i < w->nin; i++)
                    if (((uint8_t *)o.out)[i] != ((uint8_t *)w->in)[i]) {
                        fail("bytes", describe(o) + strf(" of '%s': byte %llu of %llu is %02x, stored %02x by client %d", slot[s].c_str(), (unsigned long long)i, (unsigned long long)w->nin, ((uint8_t *)o.out)[i], ((uint8_t *)w->in)[i], w->client));
                        return;
                    }
            }
        }
}
void p26_gen(Rng &r, Plan &p, int) {
    swarm(r, 4, 4);
    int nph = r.chance(0.35) ? 2 : 1;
    if (CFG.nserver * nph > 12) nph = 1;
    p.phases.resize(nph);
    bool shared = r.chance(0.3);
    std::map<std::string, u64> size;
    std::vector<std::string> names;
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        for (int c = 0; c < CFG.nclient; c++) op_cont(p, ph, c, 0, "box", true);
        int rounds = 1 + (int)r.below(3);
        for (int rd = 0; rd < rounds; rd++) {
            std::vector<std::string> fresh;
            for (int c = 0; c < CFG.nclient; c++) {
                int n = (int)r.below(6);
                for (int k = 0; k < n; k++) {
                    std::string nm = shared ? strf("s%d_%d_%d", ph, rd, k) : strf("d%d_%d_%d_%d", ph, rd, c, k);
                    if (!shared && r.chance(0.3)) nm = colliding_name(r, nm.substr(0, nm.size() - 1), k);
                    AppOp &a = p.add(ph, c, PUT_DATA);
                    a.a[0] = (int)fresh.size(); a.a[1] = 0;
                    if (shared) a.a[0] = k;
                    sets(a.s1, nm);
                    if (!size.count(nm)) {
                        size[nm] = r.chance(0.5) ? 1 + r.below(64) : r.chance(0.7) ? 1 + r.below(4096) : 1 + r.below(120000);
                        fresh.push_back(nm);
                    }
                    std::string v;
                    u64 x = r.next();
                    for (u64 i = 0; i < size[nm]; i++) { if (i % 8 == 0) x = h64(x, i); v += (char)(x >> (i % 8 * 8)); }
                    const std::string &s = pool(v);
                    a.in = s.data(); a.nin = s.size();
                    if (r.chance(0.4)) { AppOp &g = p.add(ph, c, GET_DATA); g.a[0] = p.phases[ph].ops[c].end()[-2].a[0]; g.a[1] = r.chance(0.8) ? (i64)size[nm] : r.range(1, (i64)size[nm]); }
                    if (r.chance(0.1)) rand_sleep(r, p, ph, c);
                    if (r.chance(0.3) && !names.empty()) {
                        std::string o = names[r.below(names.size())];
                        op_open_obj(p, ph, c, ObjDef{o, 1, {1, 1, 1}, 0, 4, 0, 40});
                        AppOp &g = p.add(ph, c, GET_DATA); g.a[0] = 40; g.a[1] = (i64)size[o];
                    }
                }
            }
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 10 + rd);
            for (auto &f : fresh) names.push_back(f);
        }
        for (int c = 0; c < CFG.nclient; c++)
            for (auto &o : names)
                if (r.chance(c == 0 ? 1 : 0.3)) {
                    op_open_obj(p, ph, c, ObjDef{o, 1, {1, 1, 1}, 0, 4, 0, 41});
                    AppOp &g = p.add(ph, c, GET_DATA); g.a[0] = 41; g.a[1] = (i64)size[o];
                }
        op_close(p, ph);
    }
}
}
static Reg_ r26({"P26", p26_gen, p26_check, nullptr, 1, nullptr});
