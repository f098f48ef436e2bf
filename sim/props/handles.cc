// P25: handles of a client. A reference table of the handles given out (kind, what each refers to, how often it is held)
// predicts the outcome of every call; the plan is generated together with the prediction.
#include "meta.h"

namespace {
enum { FRESH = 0, STARTED = 1, DONE = 2 };
struct HM {
    int kind = 0, refs = 0, xst = 0, obj = -1, cont = -1, mapped = 0, app = 0; // app: closes the application still owes
    std::string name;
    i64 life = 0, ts = 0, user = 0, nd = 0, dim = 0, type = -1, cons = 4, part = 1;
    std::string an, tg, dl;
    i64 rnd = 0, roff[3] = {0, 0, 0}, rsize[3] = {0, 0, 0};
    bool stale_obj = false, unsure = false;
};
bool is_prop(int k) { return k == HK_CPROP || k == HK_OPROP || k == HK_DUP; }
bool is_cont(int k) { return k == HK_CONT || k == HK_CONT_OPEN; }
bool is_obj(int k) { return k == HK_OBJ || k == HK_OBJ_OPEN; }
struct M {
    std::map<int, HM> h; // by slot
    std::map<std::string, bool> objs0; // names that can be opened (time step 0)
    void drop(int s) {
        HM &x = h[s];
        if (--x.refs > 0) return;
        if (is_obj(x.kind))
            for (auto &k : h) if (k.second.kind == HK_XFER && k.second.obj == s) {
                if (k.second.refs > 0 && k.second.xst == STARTED) k.second.refs = 0;
                k.second.stale_obj = true;
            }
    }
};
// what a call does to the table once its outcome is known
void apply(M &m, const AppOp &o, bool ok) {
    int s = (int)o.a[0];
    if (o.kind == H_MAKE && ok) {
        HM x;
        int k = (int)o.a[1];
        x.kind = k; x.refs = 1; x.app = 1;
        if (k == HK_CPROP) x.life = 0;
        if (k == HK_DUP) { x = m.h[(int)o.a[2]]; x.kind = k; x.refs = 1; x.app = 1; x.user = 0; x.type = -1; x.dl = ""; }
        if (k == HK_REG) { x.rnd = o.a[10]; for (int i = 0; i < 3; i++) { x.roff[i] = o.a[11 + i]; x.rsize[i] = o.a[14 + i]; } }
        if (is_cont(k)) { x.name = o.s1; x.life = k == HK_CONT ? m.h[(int)o.a[2]].life : 0; }
        if (k == HK_OBJ) {
            HM &p = m.h[(int)o.a[3]];
            x.name = o.s1; x.cont = (int)o.a[2]; x.nd = p.nd; x.dim = p.dim; x.type = p.type; x.cons = p.cons;
            if (p.ts == 0) m.objs0[x.name] = true;
            x.ts = p.ts;
        }
        if (k == HK_OBJ_OPEN) {
            x.name = o.s1;
            // (a name that was created twice refers to either creation: which of them is P08's business)
            for (auto &q : m.h) if (q.second.kind == HK_OBJ && q.second.name == x.name && q.second.ts == 0) { x.unsure = x.nd || x.unsure; x.nd = q.second.nd; x.dim = q.second.dim; x.type = q.second.type; x.cons = q.second.cons; }
        }
        if (k == HK_XFER) { x.obj = (int)o.a[2]; x.cons = m.h[x.obj].cons; x.unsure = m.h[x.obj].unsure; }
        m.h[s] = x;
    }
    if (o.kind == H_CLOSE && ok && m.h.count(s) && m.h[s].refs > 0) { m.h[s].app--; m.drop(s); }
    if (o.kind == H_SET && ok) {
        HM &x = m.h[s];
        i64 v = o.a[2];
        switch (o.a[1]) {
        case 0: x.life = v & 1 ? 0 : 1; break;
        case 1: x.ts = v; break;
        case 2: x.user = v; break;
        case 3: x.an = strf("n%d", (int)v); break;
        case 4: x.tg = strf("n%d", (int)v); break;
        case 5: x.nd = 1; x.dim = v; break;
        case 6: x.type = v & 1; break;
        case 7: x.dl = strf("n%d", (int)v); break;
        case 8: x.life = 0; break;
        case 9: x.cons = v % 5; break;
        case 10: x.part = v % 4; break;
        }
    }
    if (o.kind == H_XFER && ok) { HM &x = m.h[s]; if (o.a[1] == 0 || o.a[1] == 3) x.xst = x.cons == 1 && !x.unsure ? DONE : STARTED; if (o.a[1] == 1 || o.a[1] == 4) x.xst = DONE; }
    if (o.kind == H_MAP && ok) {
        for (int k : {s, (int)o.a[1]}) {
            if (o.a[3]) { m.h[k].refs++; m.h[k].mapped++; }
            else if (m.h[k].refs > 0) { m.h[k].mapped--; m.drop(k); }
        }
    }
}
bool open_(M &m, i64 slot) { return slot < 1000 && m.h.count((int)slot) && m.h[(int)slot].refs > 0; }
// whether every handle the call is given is open; what it was given otherwise
bool valid(M &m, const AppOp &o) {
    switch (o.kind) {
    case H_MAKE:
        switch (o.a[1]) {
        case HK_DUP: case HK_CONT: return open_(m, o.a[2]);
        case HK_OBJ: return open_(m, o.a[2]) && open_(m, o.a[3]);
        case HK_XFER: return open_(m, o.a[2]) && open_(m, o.a[3]) && open_(m, o.a[4]);
        case HK_OBJ_OPEN: return m.objs0.count(o.s1);
        }
        return true;
    case H_USE: if (o.a[1] == 6) { for (auto &k : m.h) if (is_cont(k.second.kind) && k.second.refs > 0 && k.second.name == o.s1) return true; return false; } return open_(m, o.a[0]);
    case H_CLOSE: case H_SET: case H_XFER: return open_(m, o.a[0]);
    case H_MAP: return open_(m, o.a[0]) && open_(m, o.a[1]) && (!o.a[3] || open_(m, o.a[2]));
    }
    return true;
}
struct Gen {
    Rng &r; Plan &p; int c; M m; int n = 0, names = 0;
    std::vector<std::string> cn, on;
    int pick(std::function<bool(HM &)> f, bool alive) {
        std::vector<int> v;
        for (auto &k : m.h) if ((k.second.refs > 0) == alive && f(k.second)) v.push_back(k.first);
        if (v.empty()) return -1;
        return v[r.chance(0.4) ? v.size() - 1 : r.below(v.size())];
    }
    // a handle for an argument: open, or now and then closed or never given out
    i64 arg(std::function<bool(HM &)> f, double bad) {
        if (r.chance(bad)) {
            if (r.chance(0.6)) { int s = pick(f, false); if (s >= 0) return s; }
            int s = pick(f, true);
            if (s >= 0) return 1000 + s;
        }
        return pick(f, true);
    }
    AppOp &add(int kind, i64 a0, i64 a1) { AppOp &o = p.add(0, c, kind); o.a[0] = a0; o.a[1] = a1; return o; }
    void done(AppOp &o) { apply(m, o, valid(m, o)); }
    void step() {
        double bad = 0.12;
        switch (r.below(12)) {
        case 0: case 1: case 2: { // make
            if (n > 200) return;
            int k = (int)r.below(9);
            i64 x = 0, y = 0, z = 0;
            if (k == HK_DUP) { x = arg([](HM &h) { return h.kind == HK_OPROP || h.kind == HK_DUP; }, bad); if (x < 0) return; }
            if (k == HK_CONT) { x = arg([](HM &h) { return h.kind == HK_CPROP; }, bad); if (x < 0) return; }
            if (k == HK_OBJ) { x = arg([](HM &h) { return is_cont(h.kind); }, bad); y = arg([](HM &h) { return (h.kind == HK_OPROP || h.kind == HK_DUP) && h.nd; }, bad); if (x < 0 || y < 0) return; }
            if (k == HK_CONT_OPEN && cn.empty()) return;
            if (k == HK_OBJ_OPEN && on.empty()) return;
            if (k == HK_XFER) {
                x = arg([](HM &h) { return is_obj(h.kind) && h.nd && h.type >= 0; }, bad);
                auto f = [](HM &h) { return h.kind == HK_REG && h.rnd == 1; };
                y = arg(f, bad / 2); z = arg(f, bad / 2);
                if (x < 0 || y < 0 || z < 0) return;
                if (open_(m, y) && open_(m, z) && m.h[(int)y].rsize[0] != m.h[(int)z].rsize[0]) return;
            }
            AppOp &o = add(H_MAKE, n, k);
            o.a[2] = x; o.a[3] = y; o.a[4] = z;
            if (k == HK_REG) {
                o.a[10] = r.chance(0.7) ? 1 : 1 + (i64)r.below(3);
                for (int i = 0; i < 3; i++) { o.a[11 + i] = (i64)r.below(20); o.a[14 + i] = r.chance(0.5) ? 8 : 1 + (i64)r.below(12); }
            }
            if (k == HK_XFER) o.a[5] = 1 + (i64)r.below(2);
            if (k == HK_CONT) { sets(o.s1, strf("hc%d_%d", c, names++)); if (valid(m, o)) cn.push_back(o.s1); }
            if (k == HK_OBJ) { bool again = !on.empty() && r.chance(0.15); if (again) sets(o.s1, on[r.below(on.size())]); else sets(o.s1, strf("ho%d_%d", c, names++)); o.a[6] = again; if (valid(m, o) && !again) on.push_back(o.s1); if (again) { n++; return; } }
            if (k == HK_CONT_OPEN) sets(o.s1, cn[r.below(cn.size())]);
            if (k == HK_OBJ_OPEN) sets(o.s1, on[r.below(on.size())]);
            n++;
            done(o);
            if (k == HK_OPROP && r.chance(0.9)) { // most properties can be used to create objects
                i64 sl = o.a[0];
                AppOp &d = add(H_SET, sl, 5); d.a[2] = 40 + (i64)r.below(100); done(d);
                AppOp &t = add(H_SET, sl, 6); t.a[2] = (i64)r.below(2); done(t);
            }
            break;
        }
        case 3: case 4: case 5: { // close
            auto any = [](HM &h) { return true; };
            int k = (int)r.below(9);
            auto f = [k](HM &h) { return h.kind == k; };
            i64 x = r.chance(0.3) ? pick([](HM &h) { return h.mapped > 0; }, true) : -1; // something else holds it too
            if (x < 0) x = r.chance(0.5) ? arg(any, 0.2) : arg(f, 0.2);
            if (x < 0) return;
            int b = (int)(x % 1000);
            if (x < 1000 && m.h[b].refs > 0 && m.h[b].app <= 0) return; // held by a mapping only
            AppOp &o = add(H_CLOSE, x, m.h[b].kind);
            done(o);
            break;
        }
        case 6: { // change a property
            int w = (int)r.below(11);
            i64 x = w == 0 ? arg([](HM &h) { return h.kind == HK_CPROP; }, 0.15) : w == 8 ? arg([](HM &h) { return is_cont(h.kind); }, 0.15)
                : arg([w](HM &h) { return h.kind == HK_OPROP || h.kind == HK_DUP; }, 0.15);
            if (x < 0) return;
            AppOp &o = add(H_SET, x, w);
            o.a[2] = w == 1 ? (i64)r.below(3) : 40 + (i64)r.below(100);
            done(o);
            break;
        }
        case 7: case 8: { // look
            i64 x = arg([](HM &h) { return h.kind != HK_XFER; }, 0.2);
            if (x < 0) return;
            int k = m.h[(int)(x % 1000)].kind, w;
            if (k == HK_CPROP) w = 0;
            else if (is_prop(k)) w = 1;
            else if (k == HK_REG) w = 2;
            else if (is_cont(k)) w = r.chance(0.2) ? 8 : r.chance(0.3) ? 6 : 3;
            else w = r.chance(0.2) ? 7 : r.chance(0.3) ? 5 : r.chance(0.1) ? 9 : 4;
            AppOp &o = add(H_USE, x, w);
            if (w == 6) sets(o.s1, cn.empty() ? std::string("none") : cn[r.below(cn.size())]);
            break;
        }
        case 9: { // transfers
            i64 x = arg([](HM &h) { return h.kind == HK_XFER && !h.stale_obj; }, 0.12);
            if (x < 0) return;
            int w;
            if (!open_(m, x)) w = (int)r.below(5);
            else { int st = m.h[(int)x].xst; w = st == FRESH ? (r.chance(0.8) ? (r.chance(0.5) ? 0 : 3) : 2) : st == STARTED ? (r.chance(0.5) ? 1 : r.chance(0.5) ? 4 : 2) : 2; }
            AppOp &o = add(H_XFER, x, w);
            done(o);
            break;
        }
        case 10: { // mappings
            auto io = [](HM &h) { return is_obj(h.kind) && h.nd == 1 && h.type >= 0; };
            auto ir = [](HM &h) { return h.kind == HK_REG && h.rnd == 1; };
            if (r.chance(0.5)) {
                i64 x = arg(io, bad), y = arg([](HM &h) { return h.kind == HK_REG && h.rnd == 1 && !h.mapped; }, bad / 2), z = arg(ir, bad / 2);
                if (x < 0 || y < 0 || z < 0 || y % 1000 == z % 1000) return;
                if (open_(m, y) && open_(m, z) && m.h[(int)y].rsize[0] != m.h[(int)z].rsize[0]) return;
                AppOp &o = add(H_MAP, x, y);
                o.a[2] = z; o.a[3] = 1;
                if (valid(m, o)) maps.push_back({(int)x, (int)y});
                done(o);
            } else if (!maps.empty()) {
                size_t i = r.below(maps.size());
                AppOp &o = add(H_MAP, maps[i].first, maps[i].second);
                maps.erase(maps.begin() + i);
                done(o);
            } else {
                i64 x = arg(io, 1), y = arg(ir, 1);
                if (x < 0 || y < 0 || (open_(m, x) && open_(m, y))) return;
                add(H_MAP, x, y);
            }
            break;
        }
        case 11: {
            if (r.chance(0.5)) { add(H_ITER, 0, 0); break; }
            i64 x = arg([](HM &h) { return is_cont(h.kind); }, 0.1);
            if (x >= 0) add(H_ITER, x, 1);
            break;
        }
        }
    }
    std::vector<std::pair<int, int>> maps;
};
void p25_gen(Rng &r, Plan &p, int) {
    swarm(r, 3, 3);
    p.phases.resize(1);
    for (int c = 0; c < CFG.nclient; c++) {
        Gen g{r, p, c, {}};
        int n = 20 + (int)r.below(120);
        for (int k : {HK_CPROP, HK_OPROP}) if (r.chance(0.9)) { AppOp &o = g.add(H_MAKE, g.n++, k); g.done(o); if (k == HK_OPROP) { i64 sl = o.a[0]; AppOp &d = g.add(H_SET, sl, 5); d.a[2] = 64; g.done(d); AppOp &t = g.add(H_SET, sl, 6); t.a[2] = 1; g.done(t); } }
        for (int i = 0; i < n; i++) g.step();
        for (auto &k : g.m.h) if (k.second.kind == HK_XFER && k.second.refs > 0 && k.second.xst == STARTED && !k.second.stale_obj) { AppOp &o = g.add(H_CLOSE, k.first, HK_XFER); g.done(o); } // waits
    }
    op_close(p, 0);
}
void p25_check(Plan &p) {
    for (auto &ops : p.phases[0].ops) {
        M m;
        std::map<i64, int> given; // handle -> slot
        std::map<int, i64> value;
        for (auto &o : ops) {
            if (o.status != 2 || o.kind < H_MAKE || o.kind > H_ITER) continue;
            bool ok = valid(m, o);
            int s = (int)(o.a[0] % 1000);
            auto bad = [&](const char *cls, const std::string &why) { fail(cls, describe(o) + strf(" returns %lld: ", (long long)o.ret) + why); };
            auto text = o.out ? std::string((const char *)o.out) : std::string();
            S.st.checks++;
            if (o.kind == H_MAKE) {
                bool got = o.ret > 0;
                if (o.a[1] == HK_OBJ && o.a[6] && ok) ok = got; // a name that is taken: either outcome
                if (ok && !got) return bad("make", "no handle although everything it needs is open");
                if (!ok && got) return bad("stale", "made from a handle that is not open, or from a name that does not exist");
                if (got) {
                    if (given.count(o.ret)) return bad("unique", strf("this handle was already given out (slot %d)", given[o.ret]));
                    given[o.ret] = s;
                    value[s] = o.ret;
                }
            } else if (o.kind == H_ITER) {
                std::multiset<i64> want, have;
                for (auto &k : m.h)
                    if (k.second.refs > 0 && (o.a[1] == 0 ? is_cont(k.second.kind) : k.second.kind == HK_OBJ && o.a[0] < 1000 && k.second.cont == s)) want.insert(value[k.first]);
                for (size_t i = 0; i < text.size();) { have.insert(atoll(text.c_str() + i)); size_t e = text.find(' ', i); if (e == std::string::npos) break; i = e + 1; }
                if (want != have) return bad("iterate", strf("%zu open handles, iterated: %s", want.size(), text.c_str()));
                probe("iterations");
            } else {
                bool got = o.ret >= 0;
                if (o.kind == H_XFER && ok && (m.h[s].xst == DONE && m.h[s].cons != 1 || m.h[s].unsure) && o.a[1] != 2) continue; // waiting for what is over already
                if (ok && !got) return bad("refused", "the handle is open");
                if (!ok && got) return bad("accepted", "the handle is not open");
                if (!ok) probe(o.kind == H_CLOSE ? "closed twice" : "closed handle used");
                if (o.kind == H_USE && ok) {
                    HM &x = m.h[s];
                    std::string w;
                    switch (o.a[1]) {
                    case 0: if (o.r[0] != x.life || o.r[1] != value[s]) w = "property"; break;
                    case 1: if (o.r[0] != x.ts || o.r[1] != value[s] || o.r[3] != x.nd || (x.nd && o.r[4] != x.dim) || text != x.an + "|" + x.tg + "|" + x.dl || (x.user && o.r[2] != x.user) || (x.type >= 0 && o.r[5] != (x.type ? 0 : 3)) || o.r[6] != x.cons || o.r[7] != x.part) w = "property"; break;
                    case 2: { bool same = o.r[0] == x.rnd && o.r[1] == value[s]; for (int i = 0; i < x.rnd; i++) same &= o.r[2 + i] == x.roff[i] && o.r[5 + i] == x.rsize[i]; if (!same) w = "region"; break; }
                    case 3: if (text != x.name || o.r[1] != value[s] || o.r[2] != x.life) w = "container '" + x.name + "'"; break;
                    case 4: if (text != x.name || o.r[1] != value[s] || (!x.unsure && (o.r[2] != x.nd || (x.nd && o.r[3] != x.dim)))) w = "object '" + x.name + "'"; break;
                    case 5: if (!x.unsure && (o.r[2] != x.nd || (x.nd && o.r[3] != x.dim))) w = "object '" + x.name + "'"; break;
                    case 6: {
                        bool found = false;
                        for (auto &k : m.h) found |= is_cont(k.second.kind) && k.second.refs > 0 && k.second.name == o.s1 && value[k.first] == o.r[1];
                        if (!found || text != o.s1) w = std::string("container '") + o.s1 + "'";
                        break;
                    }
                    }
                    if (!w.empty()) return bad("refers", strf("the handle %lld stands for the %s, got %lld %lld %lld %lld %lld %lld %lld %lld '%s'", (long long)value[s], w.c_str(), (long long)o.r[0], (long long)o.r[1], (long long)o.r[2], (long long)o.r[3], (long long)o.r[4], (long long)o.r[5], (long long)o.r[6], (long long)o.r[7], text.c_str()));
                }
            }
            apply(m, o, ok);
            if (o.kind == H_XFER && o.a[1] == 2 && ok && o.r[0] == 0) m.h[s].xst = DONE;
        }
    }
}
Reg_ r25({"P25", p25_gen, p25_check, nullptr, 1, region_fill});
} // namespace
