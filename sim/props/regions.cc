#include "regions.h"
#include <algorithm>

static const int TYPES[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13};
static int type_size(int t) {
    switch (t) { case 0: case 1: case 7: case 14: case 15: return 4; case 2: case 8: case 9: case 16: case 18: return 8; case 6: case 10: case 13: return 2; default: return 1; }
}
void region_value(u64 wid, i64 lin, int unit, uint8_t *out) {
    u64 h = h64(wid, lin, 77);
    for (int i = 0; i < unit; i++) out[i] = (uint8_t)(h >> (8 * i));
    if (unit >= 4) { out[0] = (uint8_t)wid; out[1] = (uint8_t)(wid >> 8); } // readable in a trace
}
i64 lin_of(const AppOp *x, i64 k, i64 *c) { // k-th cell of the region of an X_CREATE in row-major order -> linear key
    int nd = (int)x->a[3];
    i64 rem = k;
    for (int i = nd - 1; i >= 0; i--) { c[i] = x->a[4 + i] + rem % x->a[7 + i]; rem /= x->a[7 + i]; }
    i64 l = 0;
    for (int i = 0; i < nd; i++) l = l * 100003 + c[i];
    return l;
}
void region_fill(AppOp *o, void *buf, u64 n) {
    if (o->kind != X_CREATE) return;
    int unit = (int)o->a[10];
    i64 c[3];
    for (u64 k = 0; k < n / unit; k++) region_value(o->id, lin_of(o, k, c), unit, (uint8_t *)buf + k * unit);
}
static std::vector<RW> *g_rw;
static void on_xdone(AppOp *op, AppOp *cr, AppOp *st, const void *buf, u64 n) {
    if (!cr || !st) return;
    if (cr->r[15]) return; // already complete
    cr->r[15] = (i64)op->t1;
    cr->r[14] = op->ret;
    if (cr->a[2] == 0 || true) { free(cr->out); cr->out = malloc(n ? n : 1); memcpy(cr->out, buf, n); cr->nout = n; }
}
static struct Init_ { Init_() { ON_XDONE = on_xdone; } } init_;

enum { ACC_READ = 0, ACC_WRITE = 1 };
RegionHist region_history(Plan &p) {
    RegionHist h;
    std::map<int, std::map<int, std::string>> slot; // client -> slot -> object name
    for (size_t ph = 0; ph < p.phases.size(); ph++) {
        slot.clear();
        for (auto &c : p.phases[ph].ops) {
            std::map<int, AppOp *> xs;
            AppOp *fl = nullptr;
            for (auto &o : c) {
                if (o.status == 0 || o.status == 3) continue;
                if (o.kind == OBJ_CREATE || o.kind == OBJ_OPEN) { if (o.ret > 0) slot[o.client][(int)o.a[0]] = o.s1; }
                if (o.kind == X_CREATE) xs[(int)o.a[0]] = &o;
                auto started = [&](AppOp *s, int k) {
                    AppOp *x = xs[k];
                    if (!x || s->ret < 0) { if (x && s->ret < 0) x->r[13] = 1; return; }
                    RW w;
                    w.write = x->a[2] == 2;
                    w.create = x;
                    w.start = s;
                    w.obj = slot[o.client][(int)x->a[1]];
                    w.ndim = (int)x->a[3];
                    for (int i = 0; i < 3; i++) { w.off[i] = x->a[4 + i]; w.size[i] = x->a[7 + i]; }
                    w.unit = (int)x->a[10];
                    w.t0 = s->t0;
                    w.t1 = x->r[15] ? (u64)x->r[15] : ~0ull;
                    w.phase = (int)ph;
                    w.failed = x->r[14] < 0;
                    if (!w.write && x->out && x->r[15]) w.data.assign((uint8_t *)x->out, (uint8_t *)x->out + x->nout);
                    (w.write ? h.w : h.r).push_back(w);
                };
                if (o.kind == X_START) started(&o, (int)o.a[0]);
                if (o.kind == X_START_ALL) for (int k = 0; k < o.a[0]; k++) started(&o, (int)o.a[1 + k]);
                if (o.kind == FLUSH_OBJ || o.kind == FLUSH_ALL) fl = o.status == 2 && o.ret >= 0 ? &o : nullptr;
                if (o.kind == K_SLEEP && o.status == 2 && o.a[3] == 31 && fl) h.flushed.push_back({fl->t0, (int)ph, fl->kind == FLUSH_OBJ ? slot[o.client][(int)fl->a[0]] : "", false, fl->t1});
                if (o.kind == K_SLEEP && o.status == 2 && o.a[3] == 32) h.flushed.push_back({o.t0, (int)ph, "", true, o.t1});
                if (o.kind == CKPT && o.client == 0 && o.status == 2 && o.ret >= 0) h.durable.push_back({o.t0, o.t1, (int)ph});
                if (o.kind == CLOSE_SERVERS && !p.phases[ph].crashed && !p.phases[ph].faulted) h.durable.push_back({o.t0, ~0ull >> 1, (int)ph});
            }
        }
    }
    return h;
}
bool covers(const RW &w, const i64 *c) {
    for (int i = 0; i < w.ndim; i++) if (c[i] < w.off[i] || c[i] >= w.off[i] + w.size[i]) return false;
    return true;
}
bool RegionHist::stored(const RW &a) const {
    bool known = false;
    for (auto &e : durable)
        for (auto &v : w) {
            if (known || v.obj != a.obj || v.failed || v.t1 >= e.t0 || e.phase > a.phase) continue;
            bool in = true;
            for (int i = 0; i < a.ndim; i++) if (a.off[i] < v.off[i] || a.off[i] + a.size[i] > v.off[i] + v.size[i]) in = false;
            known |= in;
        }
    if (!known) return false;
    for (auto &f : flushed) {
        if (f.phase != a.phase || a.t1 >= f.t0 || (!f.obj.empty() && f.obj != a.obj)) continue;
        bool busy = false; // an object that is written again is not idle
        if (f.idle) for (auto &v : w) if (v.obj == a.obj && v.phase == a.phase && v.t0 < f.t1 && v.t1 > f.t0) busy = true;
        if (!busy) return true;
    }
    return false;
}
// is the effect of write w certainly there for a read of a later phase?
static bool persists(const RegionHist &h, Plan &p, const RW &w, int phase) {
    if (w.phase == phase) return true;
    for (int k = w.phase; k < phase; k++) {
        if (!p.phases[k].end_close || p.phases[k].crashed || p.phases[k].faulted) {
            bool d = false; // some checkpoint after the write, no later than phase k
            for (auto &e : h.durable) if (w.t1 < e.t0 && e.phase <= k) d = true;
            if (!d && h.stored(w)) { d = true; probe("kept_by_flush"); }
            return d;
        }
        return true; // an orderly close made it durable
    }
    return true;
}
void check_regions(Plan &p, const RegionRules &ru) {
    RegionHist h = region_history(p);
    std::map<std::string, std::vector<RW *>> by;
    for (auto &w : h.w) by[w.obj].push_back(&w);
    struct Seen { RW *r; RW *w; };
    std::map<std::pair<std::string, i64>, std::vector<Seen>> seen;
    std::map<std::string, int> part;
    for (AppOp *o : p.all()) if (o->kind == OBJ_CREATE) part[o->s1] = (int)o->a[9];
    for (auto &r : h.r) {
        if (r.t1 == ~0ull || r.failed) continue;
        auto &ws = by[r.obj];
        i64 n = r.cells();
        if ((i64)r.data.size() < n * r.unit) continue;
        S.st.checks++;
        for (i64 k = 0; k < n; k++) {
            i64 c[3];
            i64 lin = lin_of(r.create, k, c);
            const uint8_t *got = r.data.data() + k * r.unit;
            std::vector<RW *> cov;
            for (RW *w : ws) if (covers(*w, c) && w->t0 < r.t1) cov.push_back(w);
            bool initial = true, ok = false, lost = false;
            std::vector<RW *> cand;
            for (RW *w : cov) {
                bool hidden = false;
                for (RW *v : cov)
                    if (v != w && w->t1 < v->t0 && v->t1 < r.t0 && !v->failed && persists(h, p, *v, r.phase)) hidden = true;
                if (!hidden) cand.push_back(w);
                if (w->t1 < r.t0 && !w->failed && persists(h, p, *w, r.phase)) initial = false;
            }
            // placement follows the writes: where the last copy could not be stored, or its data never arrived, its server answers with what it has
            if (ru.placement && part[r.obj] >= 2)
                for (RW *w : cov) if (w->phase < r.phase && (w->t1 == ~0ull || !persists(h, p, *w, r.phase))) initial = true;
            S.st.cells++;
            if (initial) { probe("cell_initial"); continue; }
            RW *which = nullptr;
            int nm = 0;
            for (RW *w : cand) {
                uint8_t v[8];
                region_value(w->create->id, lin, r.unit, v);
                if (!memcmp(v, got, r.unit)) { ok = true; which = w; nm++; }
            }
            if (cand.size() > 1) probe("cell_raced");
            if (!ok && ru.crash_torn) { // bytes of an interrupted write may be mixed in
                ok = true;
                for (int b = 0; b < r.unit && ok; b++) {
                    bool any = false;
                    for (RW *w : cand) { uint8_t v[8]; region_value(w->create->id, lin, r.unit, v); any |= v[b] == got[b]; }
                    ok = any;
                }
            }
            if (!ok) {
                std::string hex, why = "is no value ever written to it";
                for (int b = 0; b < r.unit; b++) hex += strf("%02x", got[b]);
                for (RW *w : ws) {
                    uint8_t v[8];
                    if (!covers(*w, c)) continue;
                    region_value(w->create->id, lin, r.unit, v);
                    if (!memcmp(v, got, r.unit)) why = strf("is the older value of write #%d", w->create->id);
                }
                bool z = true;
                for (int b = 0; b < r.unit; b++) z &= got[b] == 0;
                if (z) why = "is zero";
                std::string cs;
                for (RW *w : cand) cs += strf(" #%d", w->create->id);
                fail("region_data", strf("read #%d of object '%s' by client %d in phase %d: element (%lld,%lld,%lld) is %s, which %s; expected the value of write%s", r.create->id, r.obj.c_str(), r.create->client, r.phase,
                     (long long)c[0], r.ndim > 1 ? (long long)c[1] : -1ll, r.ndim > 2 ? (long long)c[2] : -1ll, hex.c_str(), why.c_str(), cs.c_str()));
                return;
            }
            if (ru.agree && nm == 1 && r.unit >= 4 && part[r.obj] < 2) {
                auto &sv = seen[{r.obj, lin}];
                for (auto &s : sv)
                    if (s.r->phase == r.phase && s.r->t1 < r.t0 && s.w != which && which->t1 < s.r->t0 && s.w->t1 != ~0ull) {
                        fail("region_order", strf("object '%s' element key %lld: read #%d returned write #%d, and the later read #%d returned write #%d, which had completed before the first read began", r.obj.c_str(), (long long)lin,
                             s.r->create->id, s.w->create->id, r.create->id, which->create->id));
                        return;
                    }
                sv.push_back({&r, which});
            }
        }
    }
    for (auto &r : h.r) {
        if (r.t1 == ~0ull || !r.create->out) continue;
    }
    // the bytes of the application's buffer outside of the local region stay as they were
    for (AppOp *o : p.all())
        if (o->kind == X_CLOSE && o->status == 2 && o->r[1]) { fail("buffer", strf("%s: bytes of the application's buffer in front of the local region were changed", describe(*o).c_str())); return; }
    // a write never changes the application's buffer
    for (auto &w : h.w) {
        if (w.t1 == ~0ull || !w.create->out) continue;
        std::vector<uint8_t> v(w.create->nout);
        region_fill(w.create, v.data(), v.size());
        if (memcmp(v.data(), w.create->out, v.size())) { fail("buffer", strf("write #%d changed the application's buffer", w.create->id)); return; }
    }
}

// ------------------------------------------------------------------ building blocks of workloads
ObjDef rand_obj(Rng &r, const std::string &name, int slot, int maxcells) {
    ObjDef o;
    o.name = name;
    o.slot = slot;
    o.ndim = 1 + (int)r.below(3);
    o.dims[0] = o.dims[1] = o.dims[2] = 1;
    if (o.ndim == 1) o.dims[0] = r.range(1, maxcells);
    if (o.ndim == 2) { o.dims[0] = r.range(1, 16); o.dims[1] = r.range(1, std::max<i64>(1, std::min<i64>(16, maxcells / o.dims[0]))); }
    if (o.ndim == 3) { o.dims[0] = r.range(1, 8); o.dims[1] = r.range(1, 8); o.dims[2] = r.range(1, 8); }
    o.type = TYPES[r.below(11)];
    o.unit = type_size(o.type);
    o.part = (int)r.below(4);
    o.cons = r.chance(0.2) ? 1 : r.chance(0.1) ? 2 + (int)r.below(3) : 0;
    return o;
}
void op_create_obj(Plan &p, int ph, int c, const ObjDef &o, int cont) {
    AppOp &a = p.add(ph, c, OBJ_CREATE);
    a.a[0] = o.slot; a.a[1] = cont; a.a[2] = o.ndim;
    for (int i = 0; i < 3; i++) a.a[3 + i] = o.dims[i];
    a.a[6] = o.type; a.a[7] = 0; a.a[8] = (c + (i64)o.name.size() + o.name.back()) % 3 ? 1 : 0; a.a[9] = o.part; a.a[10] = o.cons; // user: 0 is one that was not set
    sets(a.s1, o.name);
    sets(a.s2, "app");
}
void op_open_obj(Plan &p, int ph, int c, const ObjDef &o) { AppOp &a = p.add(ph, c, OBJ_OPEN); a.a[0] = o.slot; sets(a.s1, o.name); }
void op_cont(Plan &p, int ph, int c, int slot, const char *name, bool create) { AppOp &a = p.add(ph, c, create ? CONT_CREATE : CONT_OPEN); a.a[0] = slot; sets(a.s1, name); }
void op1(Plan &p, int ph, int c, int kind, i64 a0, i64 a1, i64 a2, i64 a3) { AppOp &a = p.add(ph, c, kind); a.a[0] = a0; a.a[1] = a1; a.a[2] = a2; a.a[3] = a3; }
AppOp &op_xcreate(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o, bool write, const i64 *off, const i64 *size) {
    AppOp &a = p.add(ph, c, X_CREATE);
    a.a[0] = xs; a.a[1] = o.slot; a.a[2] = write ? 2 : 1; a.a[3] = o.ndim;
    bool full = true;
    for (int i = 0; i < 3; i++) { a.a[4 + i] = i < o.ndim ? off[i] : 0; a.a[7 + i] = i < o.ndim ? size[i] : 1; if (i && i < o.ndim) full &= size[i] == o.dims[i] && off[i] == 0; }
    a.a[10] = o.unit;
    a.a[14] = o.cons == 1; // POSIX: starting waits
    a.a[11] = o.ndim > 1 && full && r.chance(0.5) ? 2 : 1; // local region of the same shape, or flat
    a.a[12] = a.a[11] == 1 && r.chance(0.3) ? r.range(1, 9) : 0;
    return a;
}
void rand_region(Rng &r, const ObjDef &o, i64 *off, i64 *size, const std::vector<std::vector<i64>> *prev) {
    int mode = (int)r.below(10);
    for (int i = 0; i < o.ndim; i++) {
        if (mode == 0) { off[i] = 0; size[i] = o.dims[i]; continue; }
        off[i] = r.range(0, o.dims[i] - 1);
        size[i] = r.range(1, o.dims[i] - off[i]);
    }
    if (prev && !prev->empty() && mode >= 5) { // relate to an earlier region: same, inside, around, adjacent
        auto &q = (*prev)[r.below(prev->size())];
        int rel = (int)r.below(6);
        for (int i = 0; i < o.ndim; i++) {
            i64 po = q[i], ps = q[3 + i];
            if (rel == 0) { off[i] = po; size[i] = ps; }
            else if (rel == 1) { i64 a = r.range(0, ps - 1); off[i] = po + a; size[i] = r.range(1, ps - a); }
            else if (rel == 2) { off[i] = r.range(0, po); i64 e = r.range(po + ps, o.dims[i]); size[i] = e - off[i]; }
            else if (rel == 3) { // adjacent along one dimension
                if (i == o.ndim - 1) { if (po + ps < o.dims[i]) { off[i] = po + ps; size[i] = r.range(1, o.dims[i] - off[i]); } else { off[i] = po; size[i] = ps; } }
                else { off[i] = po; size[i] = ps; }
            }
            else if (rel == 4) { // the same rows, shifted
                if (i == 0) { i64 a = r.range(0, ps - 1); off[i] = po + a; size[i] = std::min<i64>(ps, o.dims[i] - off[i]); }
                else { off[i] = po; size[i] = ps; }
            }
        }
    }
}
void op_rw(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o, bool write, const i64 *off, const i64 *size, bool wait) {
    op_xcreate(r, p, ph, c, xs, o, write, off, size);
    op1(p, ph, c, X_START, xs);
    if (!wait) return;
    op1(p, ph, c, X_WAIT, xs);
    op1(p, ph, c, X_CLOSE, xs);
}
void op_read_all(Rng &r, Plan &p, int ph, int c, int xs, const ObjDef &o) { i64 z[3] = {0, 0, 0}; op_rw(r, p, ph, c, xs, o, false, z, o.dims); }
void op_close(Plan &p, int ph) { // every client arrives, then all of them close the servers
    for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 9999);
    for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, CLOSE_SERVERS); // collective over the clients
}
void swarm(Rng &r, int ms, int mc) {
    CFG.nserver = 1 + (int)r.below(ms);
    CFG.nclient = 1 + (int)r.below(mc);
    const double q[] = {0, 30, 300, 3000, 30000};
    CFG.quantum = q[r.below(5)];
    CFG.lat_mean = r.chance(0.5) ? 50e3 : 500e3;
    CFG.slow_prob = r.chance(0.4) ? 0.1 : 0;
    CFG.slow_mean = r.chance(0.5) ? 5e6 : 200e6;
    CFG.stall_prob = r.chance(0.25) ? 0.002 : 0;
    CFG.stall_mean = r.chance(0.5) ? 1e6 : 300e6;
    CFG.weight_spread = r.chance(0.4) ? 4 : 0;
    CFG.clock_jump = r.chance(0.2) ? 0.01 : 0;
    CFG.clock_skew = r.chance(0.2) ? 5 : 0;
    CFG.fill = r.chance(0.5) ? 0 : (int)r.below(256);
    CFG.nodes_per_host = r.chance(0.5) ? 0 : 1 + (int)r.below(2);
    const int fs[] = {-1, 0, 0, 1, 2};
    CFG.cache_flush_s = fs[r.below(5)];
    const u64 cm[] = {0, 64, 300, 1000, 4000};
    CFG.cache_max = cm[r.below(5)];
    CFG.sieving = r.chance(0.25);
}

// ------------------------------------------------------------------ P01
static void p01_gen(Rng &r, Plan &p, int v) {
    swarm(r, 4, 2);
    p.phases.resize(1);
    op_cont(p, 0, 0, 0, "c0", true);
    for (int c = 1; c < CFG.nclient; c++) op_cont(p, 0, c, 0, strf("c%d", c).c_str(), true);
    for (int c = 0; c < CFG.nclient; c++) {
        int nobj = 1 + (int)r.below(3);
        std::vector<ObjDef> objs;
        std::vector<std::vector<std::vector<i64>>> prev(nobj);
        for (int i = 0; i < nobj; i++) {
            objs.push_back(rand_obj(r, strf("o%d_%d", c, i), i));
            op_create_obj(p, 0, c, objs[i], 0);
        }
        int n = 3 + (int)r.below(22);
        for (int k = 0; k < n; k++) {
            int i = (int)r.below(nobj);
            i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
            int what = (int)r.below(20);
            rand_region(r, objs[i], off, size, &prev[i]);
            if (what < 10) { op_rw(r, p, 0, c, 0, objs[i], true, off, size); prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]}); }
            else if (what < 15) op_rw(r, p, 0, c, 0, objs[i], false, off, size);
            else if (what < 16) op1(p, 0, c, FLUSH_OBJ, objs[i].slot);
            else if (what < 17) op1(p, 0, c, FLUSH_ALL);
            else if (what < 18) op_read_all(r, p, 0, c, 0, objs[i]);
            else op1(p, 0, c, K_SLEEP, (i64)(r.unit() < 0.5 ? r.range(1000, 2000000) : r.range(2000000, 2500000000ll)));
        }
        for (int i = 0; i < nobj; i++) op_read_all(r, p, 0, c, 0, objs[i]);
    }
    op_close(p, 0);
}
static void p01_check(Plan &p) { check_regions(p, RegionRules()); }
static Reg_ r01({"P01", p01_gen, p01_check, nullptr, 1, region_fill});
