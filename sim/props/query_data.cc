// P14: data queries against a scan of everything that was written.
#include "regions.h"
#include <algorithm>
#include <limits>
#include <math.h>

namespace {
const int QT[] = {0, 1, 2, 7, 8, 9}; // INT, FLOAT, DOUBLE, UINT, INT64, UINT64
int qsize(int t) { return t == 0 || t == 1 || t == 7 ? 4 : 8; }
template <class T> void put(uint8_t *out, T v) { memcpy(out, &v, sizeof v); }
// values of a small domain with the extremes of the type in it, so that conditions meet equal, near and far ones
void value(u64 h, int type, uint8_t *out) {
    int k = (int)(h % 9) - 4, x = (int)(h / 9 % 24);
    memset(out, 0, 8);
    switch (type) {
    case 0: put<int32_t>(out, x == 0 ? INT32_MIN : x == 1 ? INT32_MAX : x == 2 ? 1 << 24 | 1 : x == 3 ? 1 << 24 : k); break;
    case 7: put<uint32_t>(out, x == 0 ? UINT32_MAX : x == 1 ? 1u << 31 : x == 2 ? (1u << 31) - 1 : (uint32_t)(k + 4)); break;
    case 8: put<int64_t>(out, x == 0 ? INT64_MIN : x == 1 ? INT64_MAX : x == 2 ? (1ll << 53) + 1 : x == 3 ? 1ll << 53 : x == 4 ? -(1ll << 53) - 1 : x == 5 ? 1ll << 32 : k); break;
    case 9: put<uint64_t>(out, x == 0 ? UINT64_MAX : x == 1 ? 1ull << 63 : x == 2 ? (1ull << 53) + 1 : x == 3 ? 1ull << 53 : x == 4 ? 1ull << 32 : (u64)(k + 4)); break;
    case 1: put<float>(out, x == 0 ? INFINITY : x == 1 ? -INFINITY : x == 2 ? 16777216.f : x == 3 ? 1e-40f : x == 4 ? -0.f : x == 5 ? NAN : k * 0.5f); break;
    default: put<double>(out, x == 0 ? INFINITY : x == 1 ? -INFINITY : x == 2 ? 1 + 1e-12 : x == 3 ? 5e-324 : x == 4 ? -0. : x == 5 ? NAN : x == 6 ? 1e300 : k * 0.5); break;
    }
}
void p14_fill(AppOp *o, void *buf, u64 n) {
    if (o->kind != X_CREATE) return;
    int t = (int)o->a[20], u = qsize(t);
    for (u64 k = 0; k < n / u; k++) { i64 c[3]; uint8_t v[8]; value(h64((u64)o->id, (u64)lin_of(o, (i64)k, c), 14), t, v); memcpy((uint8_t *)buf + k * u, v, u); }
}
template <class T> bool cmp(int op, const uint8_t *v, const uint8_t *c) {
    T a, b;
    memcpy(&a, v, sizeof a); memcpy(&b, c, sizeof b);
    switch (op) { case 1: return a > b; case 2: return a < b; case 3: return a >= b; case 4: return a <= b; default: return a == b; }
}
bool holds(int type, int op, const uint8_t *v, const uint8_t *c) {
    switch (type) {
    case 0: return cmp<int32_t>(op, v, c);
    case 7: return cmp<uint32_t>(op, v, c);
    case 8: return cmp<int64_t>(op, v, c);
    case 9: return cmp<uint64_t>(op, v, c);
    case 1: return cmp<float>(op, v, c);
    default: return cmp<double>(op, v, c);
    }
}
struct Cell { bool sure = false; std::vector<std::vector<uint8_t>> vals; }; // values an element may have while a query runs
struct Res { bool must, may; };
struct Ctx {
    std::map<std::string, std::vector<RW *>> by;
    std::map<std::string, AppOp *> def;
    std::map<int, std::string> slot; // of the client
    Cell cell(const std::string &obj, const i64 *c, AppOp *q) {
        Cell r;
        std::vector<RW *> cov;
        for (RW *w : by[obj]) if (covers(*w, c) && w->t0 < q->t1) cov.push_back(w);
        int t = (int)def[obj]->a[6];
        i64 l = 0;
        for (int i = 0; i < (int)def[obj]->a[2]; i++) l = l * 100003 + c[i];
        for (RW *w : cov) {
            bool hidden = false;
            for (RW *v : cov) if (v != w && w->t1 < v->t0 && v->t1 < q->t0) hidden = true;
            if (w->t1 < q->t0) r.sure = true;
            if (hidden) continue;
            std::vector<uint8_t> v(8);
            value(h64((u64)w->create->id, (u64)l, 14), t, v.data());
            r.vals.push_back(v);
        }
        return r;
    }
    Res eval(AppOp *q, int &pos, const i64 *c) {
        i64 k = q->a[pos++];
        if (k == 1) {
            int op = (int)q->a[pos], t = (int)q->a[pos + 1];
            uint8_t lit[8];
            memcpy(lit, &q->a[pos + 2], 8);
            std::string obj = slot[(int)q->a[pos + 3]];
            pos += 4;
            Cell x = cell(obj, c, q);
            Res r{x.sure, false};
            for (auto &v : x.vals) { bool h = holds(t, op, v.data(), lit); r.must &= h; r.may |= h; }
            if (x.vals.empty()) r.must = false;
            return r;
        }
        Res l = eval(q, pos, c), r = eval(q, pos, c);
        return k == 2 ? Res{l.must && r.must, l.may && r.may} : Res{l.must || r.must, l.may || r.may};
    }
};
std::string hex(const uint8_t *b, int n) { std::string s; for (int i = n - 1; i >= 0; i--) s += strf("%02x", b[i]); return s; }
void p14_check(Plan &p) {
    RegionHist h = region_history(p);
    Ctx X;
    for (auto &w : h.w) X.by[w.obj].push_back(&w);
    for (AppOp *o : p.all()) if (o->kind == OBJ_CREATE && o->ret > 0) X.def[o->s1] = o;
    for (auto &ph : p.phases)
        for (auto &cl : ph.ops) {
            X.slot.clear();
            for (auto &o : cl) {
                if (o.status != 2) continue;
                if (o.kind == OBJ_CREATE || o.kind == OBJ_OPEN) { if (o.ret > 0) X.slot[(int)o.a[0]] = o.s1; else X.slot.erase((int)o.a[0]); }
                if (o.kind != Q_RUN) continue;
                if (o.ret < 0) { fail("query-fails", describe(o) + strf(" returns %lld", (long long)o.ret)); return; }
                AppOp *d = X.def[X.slot[(int)o.a[11]]];
                if (!d) continue;
                int nd = (int)d->a[2];
                S.st.checks++;
                i64 dims[3] = {1, 1, 1}, n = 1;
                for (int i = 0; i < nd; i++) { dims[i] = d->a[3 + i]; n *= dims[i]; }
                std::map<i64, Res> want;
                u64 lo = 0, hi = 0;
                for (i64 k = 0; k < n; k++) {
                    i64 c[3] = {0, 0, 0}, rem = k;
                    for (int i = nd - 1; i >= 0; i--) { c[i] = rem % dims[i]; rem /= dims[i]; }
                    bool in = true;
                    for (int i = 0; i < (int)o.a[3]; i++) in &= c[i] >= o.a[4 + i] && c[i] < o.a[4 + i] + o.a[7 + i];
                    if (!in) continue;
                    int pos = 12;
                    Res r = X.eval(&o, pos, c);
                    want[k] = r;
                    lo += r.must; hi += r.may;
                    S.st.cells++;
                }
                if (lo) probe("hits");
                if (lo != hi) probe("raced");
                if (o.a[3]) probe("restricted");
                u64 got = (u64)o.r[0];
                if (got < lo || got > hi) { fail("nhits", describe(o) + strf(" finds %llu elements, a scan finds %llu", (unsigned long long)got, (unsigned long long)lo) + (lo == hi ? "" : strf(" to %llu", (unsigned long long)hi))); return; }
                if (o.a[0] == 1) continue;
                u64 un = o.a[0] == 3 ? (u64)o.a[2] : 0;
                if (got && o.r[1] != nd) { fail("ndim", describe(o) + strf(": coordinates of %lld dimensions, the object has %d", (long long)o.r[1], nd)); return; }
                if (o.nout < got * (8 * (u64)nd + un)) { fail("query-fails", describe(o) + ": no coordinates"); return; }
                const u64 *co = (const u64 *)o.out;
                const uint8_t *da = (const uint8_t *)o.out + got * nd * 8;
                std::set<i64> seen;
                if (o.a[0] == 3 && o.r[2] < 0) { fail("data-fails", describe(o) + strf(": reading the data returns %lld", (long long)o.r[2])); return; }
                std::string dobj = o.a[0] == 3 ? X.slot[(int)o.a[1]] : "";
                for (u64 i = 0; i < got; i++) {
                    i64 c[3] = {0, 0, 0}, k = 0;
                    bool out = false;
                    for (int j = 0; j < nd; j++) { c[j] = (i64)co[i * nd + j]; out |= c[j] < 0 || c[j] >= dims[j]; k = k * dims[j] + c[j]; }
                    std::string at = strf(": element %llu of the selection (%lld,%lld,%lld)", (unsigned long long)i, (long long)c[0], (long long)c[1], (long long)c[2]);
                    if (out || !want.count(k)) { fail("coords", describe(o) + at + " is outside"); return; }
                    if (!seen.insert(k).second) { fail("coords", describe(o) + at + " is selected twice"); return; }
                    if (!want[k].may) { fail("coords", describe(o) + at + " does not satisfy the query"); return; }
                    if (o.a[0] != 3 || dobj.empty() || !X.def[dobj]) continue;
                    Cell x = X.cell(dobj, c, &o);
                    if (!x.sure) continue;
                    bool ok = false;
                    for (auto &v : x.vals) ok |= !memcmp(v.data(), da + i * un, un);
                    if (!ok) { fail("data", describe(o) + at + strf(" of '%s' is returned as %s, stored %s", dobj.c_str(), hex(da + i * un, (int)un).c_str(), hex(x.vals[0].data(), (int)un).c_str())); return; }
                    if (dobj != X.slot[(int)o.a[11]]) probe("data_of_other");
                }
                for (auto &w : want) if (w.second.must && !seen.count(w.first)) { fail("coords", describe(o) + strf(": element %lld satisfies the query and is not selected", (long long)w.first)); return; }
            }
        }
}
struct QObj { ObjDef d; int shape; };
void tree(Rng &r, AppOp &q, int &pos, const std::vector<ObjDef> &objs, const std::vector<int> &same, int leaves) {
    if (leaves == 1) {
        const ObjDef &o = objs[same[r.below(same.size())]];
        q.a[pos] = 1; q.a[pos + 1] = 1 + (i64)r.below(5); q.a[pos + 2] = o.type;
        uint8_t v[8];
        do value(r.next(), o.type, v); while (o.type == 1 ? isnan(*(float *)v) : o.type == 2 && isnan(*(double *)v));
        memcpy(&q.a[pos + 3], v, 8);
        q.a[pos + 4] = o.slot;
        pos += 5;
        return;
    }
    if (leaves == 2 && r.chance(0.5)) { // a range of one object
        const ObjDef &o = objs[same[r.below(same.size())]];
        std::vector<ObjDef> one{o};
        std::vector<int> z{0};
        q.a[pos++] = 2;
        int a = pos;
        tree(r, q, pos, one, z, 1);
        int b = pos;
        tree(r, q, pos, one, z, 1);
        bool sw = r.chance(0.5);
        q.a[(sw ? b : a) + 1] = r.chance(0.5) ? 1 : 3;
        q.a[(sw ? a : b) + 1] = r.chance(0.5) ? 2 : 4;
        return;
    }
    q.a[pos++] = r.chance(0.5) ? 2 : 3;
    int l = 1 + (int)r.below(leaves - 1);
    tree(r, q, pos, objs, same, l);
    tree(r, q, pos, objs, same, leaves - l);
}
void demo1(Plan &p) { // more than one server: transfers leave no trace where the servers look for data to query
    CFG.nserver = 2; CFG.nclient = 1;
    Rng r;
    r.seed(1);
    p.phases.resize(1);
    op_cont(p, 0, 0, 0, "c0", true);
    ObjDef o;
    o.name = "o"; o.slot = 0; o.ndim = 1; o.dims[0] = 64; o.dims[1] = o.dims[2] = 1; o.type = 0; o.unit = 4; o.part = 1;
    op_create_obj(p, 0, 0, o, 0);
    i64 z[3] = {0, 0, 0};
    op_xcreate(r, p, 0, 0, 0, o, true, z, o.dims).a[20] = o.type;
    op1(p, 0, 0, X_START, 0); op1(p, 0, 0, X_WAIT, 0); op1(p, 0, 0, X_CLOSE, 0);
    AppOp &q = p.add(0, 0, Q_RUN);
    q.a[0] = 1; q.a[2] = 4; q.a[12] = 1; q.a[13] = 3; q.a[14] = 0; q.a[15] = 0; q.a[16] = 0;
    op_close(p, 0);
}
void p14_gen(Rng &r, Plan &p, int) {
    swarm(r, 1, 4);
    if (CFG.demo == 1) { demo1(p); return; }
    CFG.nserver = 1;
    CFG.gen_hist = r.chance(0.3);
    int nph = r.chance(0.25) ? 2 : 1;
    p.phases.resize(nph);
    int nobj = 1 + (int)r.below(4), nshape = 1 + (int)r.below(2);
    std::vector<ObjDef> shape, objs;
    bool disjoint = r.chance(0.5); // every client writes its own objects only
    for (int i = 0; i < nshape; i++) shape.push_back(rand_obj(r, "s", 0, r.chance(0.3) ? 1500 : 200));
    std::vector<std::vector<int>> same(nshape);
    for (int i = 0; i < nobj; i++) {
        int s = (int)r.below(nshape);
        ObjDef o = shape[s];
        o.name = strf("q%d", i); o.slot = i; o.type = QT[r.below(6)]; o.unit = qsize(o.type); o.part = (int)r.below(4);
        o.cons = r.chance(0.2) ? 1 : 0;
        objs.push_back(o);
        same[s].push_back(i);
    }
    std::vector<std::vector<std::vector<i64>>> prev(nobj);
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        if (!ph) {
            op_cont(p, 0, 0, 0, "c0", true);
            for (auto &o : objs) op_create_obj(p, 0, 0, o, 0);
        }
        for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 1);
        for (int c = 0; c < CFG.nclient; c++) if (c || ph) for (auto &o : objs) op_open_obj(p, ph, c, o);
        int rounds = 1 + (int)r.below(3);
        for (int rd = 0; rd < rounds; rd++) {
            for (int c = 0; c < CFG.nclient; c++) {
                int n = (int)r.below(ph ? 5 : 10);
                for (int k = 0; k < n; k++) {
                    int what = (int)r.below(20), i = (int)r.below(nobj);
                    if (disjoint && what < 10) i = i % CFG.nclient == c ? i : c % nobj;
                    i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                    rand_region(r, objs[i], off, size, &prev[i]);
                    if (what < 10) {
                        if (disjoint && i % CFG.nclient != c) continue;
                        op_xcreate(r, p, ph, c, 0, objs[i], true, off, size).a[20] = objs[i].type;
                        op1(p, ph, c, X_START, 0);
                        if (r.chance(0.2)) what = 19; // a query while the write is under way
                        else { op1(p, ph, c, X_WAIT, 0); op1(p, ph, c, X_CLOSE, 0); }
                        prev[i].push_back({off[0], off[1], off[2], size[0], size[1], size[2]});
                        if (what < 19) continue;
                    }
                    if (what == 10) { op1(p, ph, c, FLUSH_ALL); continue; }
                    if (what == 11) { rand_sleep(r, p, ph, c); continue; }
                    bool open = what == 19 && p.phases[ph].ops[c].back().kind == X_START;
                    {
                        int s = (int)r.below(nshape);
                        if (same[s].empty()) s = 1 - s;
                        AppOp &q = p.add(ph, c, Q_RUN);
                        q.a[0] = 1 + (i64)r.below(3);
                        int pos = 12;
                        tree(r, q, pos, objs, same[s], r.chance(0.4) ? 1 : r.chance(0.6) ? 2 : 3 + (int)r.below(2));
                        const ObjDef *d = nullptr;
                        for (int x = 12; x < pos; x++) if (q.a[x] == 1) { if (!d) d = &objs[q.a[x + 4]]; x += 4; }
                        // the first leaf is found again by its slot at a fixed place for the oracle
                        q.a[11] = d->slot;
                        const ObjDef &e = objs[same[s][r.below(same[s].size())]];
                        q.a[1] = r.chance(0.6) ? d->slot : e.slot;
                        q.a[2] = objs[q.a[1]].unit;
                        if (r.chance(0.4)) {
                            i64 ro[3] = {0, 0, 0}, rs[3] = {1, 1, 1};
                            rand_region(r, *d, ro, rs, &prev[d->slot]);
                            q.a[3] = d->ndim;
                            q.a[39] = r.chance(0.6) ? 0 : 1 + (i64)r.below(2);
                            for (int x = 0; x < 3; x++) { q.a[4 + x] = ro[x]; q.a[7 + x] = rs[x]; }
                        }
                        q.a[10] = r.chance(0.2) ? r.range(1000, 3000000) : 0;
                    }
                    if (open) { op1(p, ph, c, X_WAIT, 0); op1(p, ph, c, X_CLOSE, 0); }
                }
            }
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 10 + rd);
        }
        op_close(p, ph);
    }
}
}
static Reg_ r14({"P14", p14_gen, p14_check, nullptr, 1, p14_fill});
