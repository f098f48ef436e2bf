// P15: region locks. P16: buffers mapped to regions of objects.
#include "meta.h"
#include "regions.h"
#include <algorithm>

namespace {
// a (possible) holding of a region's lock by one client
struct Hold { AppOp *l, *u; std::string key; }; // taken by l; given up by u (nullptr: never)
struct LockHist {
    std::vector<Hold> h;
    std::vector<std::pair<AppOp *, std::string>> refused;
};
std::string region_key(const AppOp *m) {
    std::string k = strf("o%d:", (int)m->a[1]);
    for (int i = 0; i < m->a[3]; i++) k += strf("%d+%d,", (int)m->a[4 + i], (int)m->a[7 + i]);
    return k;
}
LockHist lock_history(Plan &p) {
    LockHist h;
    for (auto &c : p.phases[0].ops) {
        std::map<int, AppOp *> reg;
        std::map<std::string, int> open;
        for (auto &o : c) {
            if (o.status == 0 || o.status == 3) continue;
            if (o.kind == BUF_MAP) reg[(int)o.a[0]] = &o;
            if (o.kind == LOCK && reg.count((int)o.a[1])) {
                std::string k = region_key(reg[(int)o.a[1]]);
                if (o.status == 2 && o.ret < 0) { h.refused.push_back({&o, k}); continue; }
                h.h.push_back({&o, nullptr, k});
                open[k] = (int)h.h.size() - 1;
            }
            if (o.kind == UNLOCK && reg.count((int)o.a[1])) {
                std::string k = region_key(reg[(int)o.a[1]]);
                if (open.count(k)) { h.h[open[k]].u = &o; open.erase(k); }
            }
        }
    }
    return h;
}
bool check_locks(Plan &p) {
    LockHist h = lock_history(p);
    auto beg = [](Hold &x) { return x.l->status == 2 ? x.l->t1 : ~0ull; };
    auto end = [](Hold &x) { return x.u ? x.u->t0 : ~0ull; };
    for (size_t i = 0; i < h.h.size(); i++) {
        Hold &a = h.h[i];
        S.st.checks++;
        for (size_t j = i + 1; j < h.h.size(); j++) {
            Hold &b = h.h[j];
            if (a.key != b.key) continue;
            if (beg(a) < end(b) && beg(b) < end(a)) { fail("two-holders", strf("region %s: ", a.key.c_str()) + describe(*a.l) + " and " + describe(*b.l) + " hold the lock at the same time"); return false; }
            if (a.l->t0 < (b.u ? b.u->t1 : ~0ull) && b.l->t0 < (a.u ? a.u->t1 : ~0ull)) probe("contended");
        }
        if (a.u && a.u->status == 2 && a.u->ret < 0) { fail("release-fails", strf("region %s: ", a.key.c_str()) + describe(*a.u) + strf(" returns %lld, held since ", (long long)a.u->ret) + describe(*a.l)); return false; }
    }
    for (auto &x : h.refused) { // only while somebody else may hold it
        S.st.checks++;
        bool may = false;
        for (auto &a : h.h) if (a.key == x.second && a.l->t0 < x.first->t1 && (!a.u || a.u->status != 2 || a.u->t1 > x.first->t0)) may = true;
        if (!may || x.first->a[3] == 0) { fail(may ? "wait-refused" : "free-refused", strf("region %s: ", x.second.c_str()) + describe(*x.first) + (may ? " was to wait and is refused" : " is refused and nobody holds the lock")); return false; }
        probe("refused");
    }
    return true;
}
void p15_check(Plan &p) { if (check_locks(p)) check_regions(p, RegionRules()); }

AppOp &op_reg(Plan &p, int c, int slot, const ObjDef &o, const i64 *off, const i64 *size, bool map) {
    AppOp &a = p.add(0, c, BUF_MAP);
    a.a[0] = slot; a.a[1] = o.slot; a.a[2] = o.type; a.a[3] = o.ndim;
    for (int i = 0; i < 3; i++) { a.a[4 + i] = i < o.ndim ? off[i] : 0; a.a[7 + i] = i < o.ndim ? size[i] : 1; }
    a.a[10] = o.unit;
    a.a[11] = !map;
    return a;
}
struct Reg { int obj; i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1}; };
// objects every client has open, regions of them that differ from each other
void base(Rng &r, Plan &p, std::vector<ObjDef> &objs, std::vector<Reg> &regs, int nobj, int nreg, bool disjoint) {
    p.phases.resize(1);
    for (int i = 0; i < nobj; i++) {
        ObjDef o = rand_obj(r, strf("o%d", i), i);
        o.part = 0;
        o.cons = 0;
        objs.push_back(o);
    }
    for (int c = 0; c < CFG.nclient; c++) {
        op_cont(p, 0, c, 0, "box", true);
        for (auto &o : objs) if (c == 0) op_create_obj(p, 0, c, o, 0);
        op1(p, 0, c, K_BARRIER, 1);
        for (auto &o : objs) if (c) op_open_obj(p, 0, c, o);
    }
    for (int k = 0; k < nreg; k++) {
        Reg g;
        for (int tries = 0; tries < 20; tries++) {
            g.obj = (int)r.below(nobj);
            ObjDef &o = objs[g.obj];
            rand_region(r, o, g.off, g.size, nullptr);
            bool ok = true;
            for (auto &q : regs) {
                if (q.obj != g.obj) continue;
                bool same = true, meet = true;
                for (int i = 0; i < o.ndim; i++) {
                    same &= q.off[i] == g.off[i] && q.size[i] == g.size[i];
                    meet &= q.off[i] < g.off[i] + g.size[i] && g.off[i] < q.off[i] + q.size[i];
                }
                if (same || (disjoint && meet)) ok = false;
            }
            if (ok) { regs.push_back(g); break; }
        }
    }
}
void p15_gen(Rng &r, Plan &p, int) {
    swarm(r, 2, 5);
    if (CFG.nclient == 1 && r.chance(0.8)) CFG.nclient = 2;
    std::vector<ObjDef> objs;
    std::vector<Reg> regs;
    base(r, p, objs, regs, 1 + (int)r.below(2), 1 + (int)r.below(4), r.chance(0.5));
    bool data = r.chance(0.5), free_xfer = r.chance(0.4), cross = r.chance(0.3);
    for (int c = 0; c < CFG.nclient; c++) {
        for (size_t k = 0; k < regs.size(); k++) op_reg(p, c, (int)k, objs[regs[k].obj], regs[k].off, regs[k].size, false);
        int n = 1 + (int)r.below(8);
        std::vector<int> held;
        auto drop = [&](size_t i) {
            int k = held[i];
            op1(p, 0, c, UNLOCK, regs[k].obj, k, r.chance(cross ? 0.5 : 0) ? 1 : 2);
            held.erase(held.begin() + i);
        };
        for (int i = 0; i < n; i++) {
            if (free_xfer && r.chance(0.4)) { // transfers that no lock protects
                Reg &g = regs[r.below(regs.size())];
                op_rw(r, p, 0, c, 0, objs[g.obj], r.chance(0.7), g.off, g.size);
                if (r.chance(0.3)) rand_sleep(r, p, 0, c);
            }
            int k = (int)r.below(regs.size());
            bool own = std::count(held.begin(), held.end(), k);
            // no waiting for a lock in front of one already held: nobody waits in a circle
            bool wait = !own && (held.empty() || k > *std::max_element(held.begin(), held.end())) && r.chance(0.8);
            if (own && r.chance(0.8)) { drop(std::find(held.begin(), held.end(), k) - held.begin()); continue; }
            op1(p, 0, c, LOCK, regs[k].obj, k, r.chance(0.3) ? 1 : 2, wait ? 0 : 1);
            if (!wait) { // whether it is held is not known: give it up when it was obtained
                p.phases[0].ops[c].back().a[5] = 1;
                if (r.chance(0.3)) rand_sleep(r, p, 0, c);
                AppOp &u = p.add(0, c, UNLOCK);
                u.a[0] = regs[k].obj; u.a[1] = k; u.a[2] = 2; u.a[6] = 1; // only if the lock was obtained
                continue;
            }
            held.push_back(k);
            if (r.chance(0.4)) rand_sleep(r, p, 0, c);
            if (data && r.chance(0.7)) {
                op_rw(r, p, 0, c, 0, objs[regs[k].obj], true, regs[k].off, regs[k].size);
                if (r.chance(0.7)) op_rw(r, p, 0, c, 0, objs[regs[k].obj], false, regs[k].off, regs[k].size);
            }
            while (!held.empty() && r.chance(0.6)) drop(r.below(held.size()));
        }
        while (!held.empty()) drop(r.below(held.size()));
    }
    op_close(p, 0);
}

// ---------------------------------------------------------------- P16
i64 lin(const AppOp *m, i64 k) {
    int nd = (int)m->a[3];
    i64 rem = k, c[3];
    for (int i = nd - 1; i >= 0; i--) { c[i] = m->a[4 + i] + rem % m->a[7 + i]; rem /= m->a[7 + i]; }
    i64 l = 0;
    for (int i = 0; i < nd; i++) l = l * 100003 + c[i];
    return l;
}
void p16_fill(AppOp *o, void *buf, u64 n) {
    if (o->kind == X_CREATE) { region_fill(o, buf, n); return; }
    int unit = (int)o->a[10];
    for (u64 k = 0; k < n / unit; k++) region_value(o->id, lin(o, k), unit, (uint8_t *)buf + k * unit);
}
struct Acc { bool write; u64 t0, t1; const AppOp *shape, *val, *op; const uint8_t *data; std::string obj; };
void p16_check(Plan &p) {
    if (!check_locks(p)) return;
    std::vector<Acc> acc;
    for (auto &c : p.phases[0].ops) {
        std::map<int, AppOp *> reg, val;
        std::map<int, bool> mapped;
        for (auto &o : c) {
            if (o.status == 0 || o.status == 3) continue;
            int s = (int)o.a[0], m = (int)o.a[1];
            if (o.kind == BUF_MAP) {
                reg[s] = &o; val.erase(s);
                mapped[s] = !o.a[11] && o.status == 2 && o.ret >= 0;
                S.st.checks++;
                if (!o.a[11] && o.status == 2 && o.ret < 0) { fail("map-fails", describe(o) + strf(" returns %lld", (long long)o.ret)); return; }
            }
            if (o.kind == BUF_UNMAP) {
                mapped[s] = false;
                S.st.checks++;
                if (o.status == 2 && o.ret < 0) { fail("unmap-fails", describe(o) + strf(" returns %lld", (long long)o.ret)); return; }
            }
            if (o.kind == COMP) val[s] = &o;
            if (o.kind == UNLOCK && mapped[m] && (o.status != 2 || o.ret >= 0)) {
                if (o.a[2] == 2) acc.push_back({true, o.t0, o.status == 2 ? o.t1 : ~0ull, reg[m], val.count(m) ? val[m] : nullptr, &o, nullptr, strf("o%d", (int)o.a[0])});
                else if (o.status == 2 && o.out && (i64)o.nout) {
                    acc.push_back({false, o.t0, o.t1, reg[m], nullptr, &o, (uint8_t *)o.out, strf("o%d", (int)o.a[0])});
                    val.erase(m);
                    val[m] = &o; // what was read is what the buffer holds now
                }
            }
        }
    }
    RegionHist h = region_history(p);
    auto cell = [](const AppOp *m, const std::map<i64, i64> &, i64) { return m; };
    (void)cell;
    struct Ev { Acc *a; std::map<i64, i64> at; };
    std::vector<Ev> ev;
    std::vector<Acc> xf;
    for (auto &w : h.w) xf.push_back({true, w.t0, w.t1, w.create, w.create, w.start, nullptr, w.obj});
    for (auto &w : h.r) if (w.t1 != ~0ull && !w.failed && !w.data.empty()) xf.push_back({false, w.t0, w.t1, w.create, nullptr, w.start, w.data.data(), w.obj});
    for (auto &x : xf) acc.push_back(x);
    for (auto &a : acc) {
        Ev e{&a, {}};
        i64 n = 1;
        for (int i = 0; i < a.shape->a[3]; i++) n *= a.shape->a[7 + i];
        for (i64 k = 0; k < n; k++) e.at[lin(a.shape, k)] = k;
        ev.push_back(e);
    }
    for (auto &r : ev) {
        if (r.a->write) continue;
        int unit = (int)r.a->shape->a[10];
        S.st.checks++;
        for (auto &c : r.at) {
            S.st.cells++;
            std::vector<Ev *> cov, cand;
            for (auto &w : ev) if (w.a->write && w.a->obj == r.a->obj && w.a->t0 < r.a->t1 && w.at.count(c.first)) cov.push_back(&w);
            bool initial = true, ok = false;
            for (Ev *w : cov) {
                bool hidden = false;
                for (Ev *v : cov) if (v != w && w->a->t1 < v->a->t0 && v->a->t1 < r.a->t0) hidden = true;
                if (!hidden) cand.push_back(w);
                if (w->a->t1 < r.a->t0) initial = false;
            }
            if (initial) { probe("cell_initial"); continue; }
            if (cand.size() > 1) probe("cell_raced");
            const uint8_t *got = r.a->data + c.second * unit;
            std::string ids;
            for (Ev *w : cand) {
                uint8_t v[8] = {0};
                ids += strf(" #%d", w->a->op->id);
                if (!w->a->val) ;
                else if (w->a->val->kind == UNLOCK) memcpy(v, (uint8_t *)w->a->val->out + w->at[c.first] * unit, unit);
                else region_value(w->a->val->id, c.first, unit, v);
                if (!memcmp(v, got, unit)) ok = true;
                if (w->a->op->client != r.a->op->client) probe("other_client");
            }
            if (!ok) {
                std::string hex;
                for (int b = 0; b < unit; b++) hex += strf("%02x", got[b]);
                fail("mapped-data", describe(*r.a->op) + strf(" on %s: element key %lld is %s, not what was stored last, by operation", r.a->obj.c_str(), (long long)c.first, hex.c_str()) + ids);
                return;
            }
        }
    }
}
void p16_gen(Rng &r, Plan &p, int) {
    swarm(r, 2, 4);
    std::vector<ObjDef> objs;
    std::vector<Reg> regs;
    bool disjoint = r.chance(0.6);
    base(r, p, objs, regs, 1 + (int)r.below(2), 1 + (int)r.below(4), disjoint);
    bool xfer = r.chance(0.5);
    for (int c = 0; c < CFG.nclient; c++) {
        std::map<int, bool> mapped, have;
        int n = 2 + (int)r.below(9);
        for (int i = 0; i < n; i++) {
            int k = (int)r.below(regs.size());
            ObjDef &o = objs[regs[k].obj];
            if (!mapped[k]) {
                if (r.chance(0.8)) { op_reg(p, c, k, o, regs[k].off, regs[k].size, true); mapped[k] = true; }
                else if (!have[k]) op_reg(p, c, k, o, regs[k].off, regs[k].size, false);
                have[k] = true;
            }
            else if (r.chance(0.12)) { op1(p, 0, c, BUF_UNMAP, k, regs[k].obj); mapped[k] = have[k] = false; continue; }
            if (xfer && r.chance(0.2)) { op_rw(r, p, 0, c, 0, o, r.chance(0.5), regs[k].off, regs[k].size); continue; }
            int acc = r.chance(0.5) ? 1 : 2;
            auto comp = [&] {
                AppOp &a = p.add(0, c, COMP);
                const AppOp *m = nullptr;
                for (auto &q : p.phases[0].ops[c]) if (q.kind == BUF_MAP && q.a[0] == k) m = &q;
                memcpy(a.a, m->a, sizeof a.a);
            };
            if (acc == 2 && mapped[k] && r.chance(0.3)) comp();
            op1(p, 0, c, LOCK, regs[k].obj, k, acc, 0);
            if (acc == 2 && mapped[k] && r.chance(0.8)) comp();
            if (r.chance(0.2)) rand_sleep(r, p, 0, c);
            op1(p, 0, c, UNLOCK, regs[k].obj, k, acc);
        }
        for (auto &k : mapped) if (k.second && r.chance(0.7)) op1(p, 0, c, BUF_UNMAP, k.first, regs[k.first].obj);
        op1(p, 0, c, K_BARRIER, 2);
        for (size_t k = 0; k < regs.size(); k++)
            if (r.chance(0.6)) op_rw(r, p, 0, c, 0, objs[regs[k].obj], false, regs[k].off, regs[k].size);
    }
    op_close(p, 0);
}
}
static Reg_ r15({"P15", p15_gen, p15_check, nullptr, 1, region_fill});
static Reg_ r16({"P16", p16_gen, p16_check, nullptr, 1, p16_fill});
