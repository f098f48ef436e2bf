#include "meta.h"
#include <algorithm>
#include <deque>

const std::string &pool(const std::string &s) { static std::deque<std::string> P; P.push_back(s); return P.back(); }

// ------------------------------------------------------------------ oracle
namespace {
struct State { // of one name
    u64 id = 0;                // current instance, 0 none; bit 63: created by an operation whose id is not known
    int by = 0;                // the operation that created it (its properties)
    std::map<std::string, int> tags; // tag -> the put that is in effect
    std::set<u64> members;
    int app = 0;               // the update that set the application
    std::vector<int> st;       // the operations that appended string tags
    std::string key() const {
        std::string s = strf("%llx.%d", (unsigned long long)id, by);
        if (app) s += strf("a%d", app);
        for (int t : st) s += strf("+%d", t);
        for (auto &t : tags) s += strf(";%s=%d", t.first.c_str(), t.second);
        for (u64 m : members) s += strf(",%llx", (unsigned long long)m);
        return s;
    }
};
struct MOp { AppOp *o; u64 id; bool pending; u64 t0, t1; std::vector<u64> ids; };
struct KeyHist { bool cont; std::map<int, std::vector<MOp>> ph; };
const u64 UNK = 1ull << 63;
bool vfail; std::string vwhy;

std::map<int, AppOp *> OPS;
std::string text(const AppOp *o) {
    std::string s = describe(*o) + strf(" = %lld", (long long)o->ret);
    if (o->kind == OBJ_CREATE || o->kind == OBJ_OPEN || o->kind == CONT_CREATE || o->kind == CONT_OPEN || o->kind == CONT_CREATE_COL) s += strf(" id %lld", (long long)o->r[0]);
    if (o->kind == TAG_GET) s += o->r[2] ? strf(" type %lld size %lld", (long long)o->r[0], (long long)o->r[1]) : " absent";
    if (o->kind == TAG_PUT) s += strf(" type %lld size %llu", (long long)o->a[2], (unsigned long long)o->nin);
    return s;
}
std::string padded(const AppOp *o) { return std::string(o->s1) + std::string(o->a[36] > 0 ? o->a[36] : 0, 'n'); }
const size_t NAME_MAX_ = 1024, TAGS_MAX = 2048; // limits of the stored records
std::string strtags(const State &s) {
    const AppOp *c = OPS[s.by];
    std::string t = c->s3[0] ? c->s3 : " ";
    for (int i : s.st) t += "," + (OPS[i]->kind == STR_TAG ? padded(OPS[i]) : std::string(OPS[i]->s3));
    return t;
}
bool same_props(const State &s, const AppOp *c, const AppOp *o, std::string *why) {
    if (o->r[2] != c->a[2]) { *why = strf("the object has %lld dimensions, it was created with %lld", (long long)o->r[2], (long long)c->a[2]); return false; }
    for (int i = 0; i < c->a[2]; i++) if (o->r[3 + i] != c->a[3 + i]) { *why = strf("dimension %d is %lld, it was created as %lld", i, (long long)o->r[3 + i], (long long)c->a[3 + i]); return false; }
    if (o->r[6] != c->a[6]) { *why = "the type differs"; return false; }
    if (o->r[7] != c->a[7]) { *why = "the time step differs"; return false; }
    if (o->r[8] != c->a[8]) { *why = "the user differs"; return false; }
    if (o->r[10] != (c->a[10] ? c->a[10] : 4)) { *why = "the consistency differs"; return false; } // 4: the default
    if (o->r[9] != c->a[9]) { *why = "the region partition differs"; return false; }
    std::string want = padded(c) + "|" + (s.app ? OPS[s.app]->s2 : c->s2) + "|" + strtags(s), got = o->out ? std::string((char *)o->out) : "";
    if (got != want) { *why = "name, application and string tags are '" + got.substr(0, 300) + "', expected '" + want.substr(0, 300) + "'"; return false; }
    return true;
}
// All states the operation may lead to from s (empty: it cannot have happened in s)
std::vector<State> apply(const State &s, const MOp &m) {
    const AppOp *o = m.o;
    State n = s;
    bool pend = m.pending, ok = o->ret >= 0;
    bool mine = s.id && m.id && (s.id == m.id);
    switch (o->kind) {
    case OBJ_CREATE:
        if (padded(o).size() >= NAME_MAX_) { if (!pend && o->ret > 0) { vwhy = "a name that is too long was accepted"; return {}; } return {s}; }
        if (s.id) return !pend && o->ret > 0 ? std::vector<State>{} : std::vector<State>{s};
        if (!pend && o->ret <= 0) { vwhy = "creating a name that does not exist failed"; return {}; }
        n = State(); n.id = pend ? UNK | o->id : (u64)o->r[0]; n.by = o->id;
        return {n};
    case CONT_CREATE: case CONT_CREATE_COL:
        if (pend) { if (s.id) return {s}; n = State(); n.id = UNK | o->id; n.by = o->id; return {n}; }
        if (padded(o).size() >= NAME_MAX_) { if (o->ret > 0) { vwhy = "a name that is too long was accepted"; return {}; } return {s}; }
        if (o->ret <= 0) { vwhy = "creating a container failed"; return {}; }
        if (s.id & UNK) { n.id = (u64)o->r[0]; return {n}; }
        if (s.id) { if (s.id != (u64)o->r[0]) { vwhy = "creating a container that exists returned another container"; return {}; } return {s}; }
        n = State(); n.id = (u64)o->r[0]; n.by = o->id;
        return {n};
    case OBJ_OPEN: case CONT_OPEN:
        if (pend) return {s};
        if (o->ret <= 0) { if (s.id) { vwhy = "an existing name was not found"; return {}; } return {s}; }
        if (!s.id) { vwhy = "a name that does not exist was found"; return {}; }
        if (!(s.id & UNK) && s.id != (u64)o->r[0]) { vwhy = strf("the name gives id %lld, it was created as %lld", (long long)o->r[0], (long long)s.id); return {}; }
        n.id = (u64)o->r[0];
        if (o->kind == OBJ_OPEN && s.by) { std::string w; if (!same_props(s, OPS[s.by], o, &w)) { vwhy = w; return {}; } }
        return {n};
    case OBJ_DEL_NAME:
        if (!s.id) { if (!pend && ok) { vwhy = "deleting a name that does not exist succeeded"; return {}; } return {s}; }
        if (!pend && !ok) { vwhy = "deleting an existing name failed"; return {}; }
        return {State()};
    case META_UPD:
        if (pend && !m.id) return {s};
        if (!pend && o->ret == 0) { if (s.id) { vwhy = "an existing name was not found"; return {}; } return {s}; }
        if (s.id & UNK) n.id = m.id;
        else if (!mine) { // it may have been deleted between being found and being changed
            if (!pend && ok) { vwhy = "changing an item that does not exist succeeded"; return {}; }
            return {s};
        }
        if (!ok && !pend) { if (o->s3[0] && s.by && strtags(s).size() + 1 + strlen(o->s3) >= TAGS_MAX) return {s}; vwhy = "changing an existing item failed"; return {}; }
        if (o->s2[0]) n.app = o->id;
        if (o->s3[0]) n.st.push_back(o->id);
        return {n};
    case STR_TAG:
        if (!mine) { if (!pend && ok) { vwhy = "tagging an item that does not exist succeeded"; return {}; } return {s}; }
        if (s.by && strtags(s).size() + 1 + padded(o).size() >= TAGS_MAX) { if (!pend && ok) { vwhy = "a string tag was accepted that does not fit"; return {}; } return {s}; }
        if (!pend && !ok) { vwhy = "tagging an existing item failed"; return {}; }
        n.st.push_back(o->id);
        return {n};
    case OBJ_DEL: case CONT_DEL:
        if (!mine) return {s};
        if (!pend && !ok) { vwhy = "deleting an existing item failed"; return {}; }
        return {State()};
    case TAG_PUT:
        if (!mine) return {s};
        if (!pend && !ok) { vwhy = "putting a tag on an existing item failed"; return {}; }
        n.tags[o->s1] = o->id;
        return {n};
    case TAG_DEL:
        if (!mine) return {s};
        if (!n.tags.count(o->s1)) return {s};
        if (!pend && !ok) { vwhy = "deleting an existing tag failed"; return {}; }
        n.tags.erase(o->s1);
        return {n};
    case TAG_GET: {
        if (pend) return {s};
        bool found = ok && o->r[2];
        if (!mine) { if (found) { vwhy = "a tag of a deleted item was returned"; return {}; } return {s}; }
        auto it = s.tags.find(o->s1);
        if (it == s.tags.end()) { if (found) { vwhy = "a tag that does not exist was returned"; return {}; } return {s}; }
        if (!found) { vwhy = strf("the tag put by #%d was not found", it->second); return {}; }
        const AppOp *p = OPS[it->second];
        if ((u64)o->r[1] != p->nin) { vwhy = strf("the tag has size %lld, put as %llu by #%d", (long long)o->r[1], (unsigned long long)p->nin, p->id); return {}; }
        if (o->nout != p->nin || memcmp(o->out, p->in, p->nin)) { vwhy = strf("the tag's bytes differ from those put by #%d", p->id); return {}; }
        if (o->r[0] != p->a[2]) { vwhy = strf("the tag has type %lld, put as %lld by #%d", (long long)o->r[0], (long long)p->a[2], p->id); return {}; }
        return {s};
    }
    case CONT_ADD: case CONT_RM:
        if (!mine) return {s};
        if (!pend && !ok) { vwhy = "changing the members of an existing container failed"; return {}; }
        for (u64 i : m.ids) if (o->kind == CONT_ADD) n.members.insert(i); else n.members.erase(i);
        return {n};
    case CONT_PROBE: {
        if (pend || o->ret == -3) return {s};
        if (o->ret < 0) { if (s.id) { vwhy = "the container is not on its server"; return {}; } return {s}; }
        if (!s.id) { vwhy = "a container that does not exist is on the server"; return {}; }
        if (!(s.id & UNK) && (u64)o->r[0] != s.id) { vwhy = "another container has the name"; return {}; }
        n.id = (u64)o->r[0];
        std::set<u64> got((u64 *)o->out, (u64 *)o->out + o->nout / 8);
        if ((size_t)o->ret != s.members.size() || got != s.members) {
            vwhy = strf("the container holds %lld entries (%zu distinct), expected %zu", (long long)o->ret, got.size(), s.members.size());
            for (u64 m : s.members) if (!got.count(m)) { vwhy += strf("; %llu is missing", (unsigned long long)m); break; }
            for (u64 m : got) if (!s.members.count(m)) { vwhy += strf("; %llu is not a member", (unsigned long long)m); break; }
            return {};
        }
        return {n};
    }
    }
    return {s};
}
struct Node_ { u64 mask; State s; };
// explore every sequential order; all visited (set of executed operations, state)
bool explore(const std::vector<State> &init, const std::vector<MOp> &ops, std::vector<Node_> &seen, std::string *msg) {
    std::set<std::string> vis;
    size_t at = 0;
    u64 must = 0;
    for (size_t i = 0; i < ops.size(); i++) if (!ops[i].pending) must |= 1ull << i;
    int best = -1; std::string bw;
    auto push = [&](u64 mask, const State &s) { if (vis.insert(strf("%llx:", (unsigned long long)mask) + s.key()).second) seen.push_back({mask, s}); };
    for (auto &s : init) push(0, s);
    bool done = false;
    while (at < seen.size()) {
        Node_ nd = seen[at++];
        if ((nd.mask & must) == must) done = true;
        if (seen.size() > 300000) { probe("lin_overflow"); return true; }
        u64 lim = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(nd.mask >> i & 1) && !ops[i].pending) lim = std::min(lim, ops[i].t1);
        std::string w;
        for (size_t i = 0; i < ops.size(); i++) {
            if ((nd.mask >> i & 1) || ops[i].t0 > lim) continue;
            vwhy.clear();
            auto v = apply(nd.s, ops[i]);
            if (v.empty() && w.empty()) w = text(ops[i].o) + ": " + vwhy;
            for (auto &s : v) push(nd.mask | 1ull << i, s);
        }
        int n = __builtin_popcountll(nd.mask & must);
        if (n > best || (n == best && bw.empty())) { best = n; bw = w; }
    }
    if (!done) { *msg = bw; return false; }
    return true;
}
}
void check_meta(Plan &p, const MetaRules &ru) {
    std::map<std::string, KeyHist> keys;
    OPS.clear();
    struct Made { u64 id; AppOp *o; };
    std::vector<Made> made;
    struct Dur { u64 t0; };
    std::map<int, std::vector<u64>> dur; // phase -> invocation of acknowledged checkpoints
    for (size_t ph = 0; ph < p.phases.size(); ph++) {
        for (auto &c : p.phases[ph].ops) {
            std::map<int, std::pair<u64, std::string>> os, cs;
            for (auto &o : c) {
                OPS[o.id] = &o;
                if (o.status == 0 || o.status == 3) continue;
                bool pend = o.status == 1;
                MOp m{&o, 0, pend, o.t0, pend ? ~0ull : o.t1, {}};
                std::string k;
                bool cont = false;
                switch (o.kind) {
                case OBJ_CREATE: case OBJ_OPEN:
                    k = std::string("o:") + o.s1; // an object is known by its name and time step; opening takes time step 0
                    if (o.a[7] > 0) { k += strf("@%lld", (long long)o.a[7]); probe("time_step"); }
                    if (o.ret > 0 && !pend && (o.kind == OBJ_CREATE || !o.a[7])) os[(int)o.a[0]] = {(u64)o.r[0], k.substr(2)}; else os.erase((int)o.a[0]);
                    break;
                case CONT_CREATE: case CONT_CREATE_COL: case CONT_OPEN:
                    if (o.ret > 0 && !pend) cs[(int)o.a[0]] = {(u64)o.r[0], o.s1}; else cs.erase((int)o.a[0]);
                    k = std::string("c:") + o.s1; cont = true;
                    break;
                case META_UPD: case OBJ_DEL_NAME:
                    k = std::string("o:") + o.s1;
                    if (o.a[7] > 0) k += strf("@%lld", (long long)o.a[7]);
                    m.id = (u64)o.r[0];
                    break;
                case STR_TAG: if (os.count((int)o.a[0])) { m.id = os[(int)o.a[0]].first; k = "o:" + os[(int)o.a[0]].second; } break;
                case OBJ_DEL: if (os.count((int)o.a[0])) { m.id = os[(int)o.a[0]].first; k = "o:" + os[(int)o.a[0]].second; } break;
                case CONT_DEL: if (cs.count((int)o.a[0])) { m.id = cs[(int)o.a[0]].first; k = "c:" + cs[(int)o.a[0]].second; cont = true; } break;
                case TAG_PUT: case TAG_GET: case TAG_DEL: {
                    if (!ru.tags) break;
                    auto &t = o.a[1] ? cs : os;
                    if (t.count((int)o.a[0])) { m.id = t[(int)o.a[0]].first; k = (o.a[1] ? "c:" : "o:") + t[(int)o.a[0]].second; cont = o.a[1]; }
                    break;
                }
                case CONT_ADD: case CONT_RM:
                    if (!ru.members) break;
                    if (cs.count((int)o.a[0])) {
                        m.id = cs[(int)o.a[0]].first; k = "c:" + cs[(int)o.a[0]].second; cont = true;
                        for (int i = 0; i < o.a[1]; i++) { int sl = (int)(o.a[39] ? o.a[2] + i : o.a[2 + i]); if (os.count(sl)) m.ids.push_back(os[sl].first); }
                    }
                    break;
                case CONT_PROBE: if (ru.members) { k = std::string("c:") + o.s1; cont = true; } break;
                case CKPT: if (o.client == 0 && !pend && o.ret >= 0) dur[(int)ph].push_back(o.t0); break;
                default: break;
                }
                if (o.a[38] && o.client != (o.kind == OBJ_CREATE ? o.a[37] : 0) && (o.kind == OBJ_CREATE || o.kind == OBJ_OPEN || o.kind == CONT_CREATE_COL || o.kind == CONT_OPEN)) k.clear(); // one client of a collective call asks
                if (k.empty()) continue;
                keys[k].cont = cont;
                keys[k].ph[(int)ph].push_back(m);
                if (!pend && o.kind == OBJ_CREATE && o.ret > 0) made.push_back({(u64)o.r[0], &o});
                if (!pend && (o.kind == CONT_CREATE || o.kind == CONT_CREATE_COL) && o.ret > 0) made.push_back({(u64)o.r[0], &o});
            }
        }
    }
    if (ru.ids) {
        std::map<u64, AppOp *> by;
        std::set<u64> lost; // created in a phase that crashed
        for (auto &m : made) {
            auto it = by.find(m.id);
            S.st.checks++;
            if (m.id == 0) { fail("id", text(m.o) + ": id 0"); return; }
            bool both = it != by.end() && it->second->kind != OBJ_CREATE && m.o->kind != OBJ_CREATE && !strcmp(it->second->s1, m.o->s1); // an existing container
            if (it != by.end() && !both && !(it->second->phase != m.o->phase && (p.phases[it->second->phase].crashed || p.phases[it->second->phase].faulted || !p.phases[it->second->phase].end_close))) {
                fail("id", strf("two items received the same identifier %llu: %s and %s", (unsigned long long)m.id, text(it->second).c_str(), text(m.o).c_str()));
                return;
            }
            by[m.id] = m.o;
        }
    }
    for (auto &kv : keys) {
        std::vector<State> st{State()};
        for (size_t ph = 0; ph < p.phases.size(); ph++) {
            if (!p.phases[ph].started) break;
            auto &ops = kv.second.ph[(int)ph];
            if (ops.size() > 62) { probe("lin_skipped"); return; }
            std::vector<Node_> seen;
            std::string msg;
            S.st.checks++;
            S.st.cells += ops.size();
            if (!explore(st, ops, seen, &msg)) {
                std::string from;
                if (ph > 0 && ops.size()) { from = "; possible states before this phase:"; for (auto &s : st) from += " {" + s.key() + "}"; }
                fail(kv.second.cont ? "container" : "object", strf("%s '%s', phase %zu: no order of its operations explains the results; %s%s", kv.second.cont ? "container" : "object", kv.first.c_str() + 2, ph, msg.c_str(), from.substr(0, 400).c_str()));
                return;
            }
            if (seen.size() > ops.size() + 1) probe("raced_names");
            std::map<std::string, State> next;
            bool kept = p.phases[ph].end_close && !p.phases[ph].crashed && !p.phases[ph].faulted;
            u64 must = 0, full = 0, d = 0;
            for (u64 t : dur[(int)ph]) d = std::max(d, t);
            for (size_t i = 0; i < ops.size(); i++) { if (!ops[i].pending) full |= 1ull << i; if (ops[i].t1 < d) must |= 1ull << i; }
            for (auto &n : seen) if (kept ? (n.mask & full) == full : (n.mask & must) == must) next[n.s.key()] = n.s;
            st.clear();
            for (auto &n : next) st.push_back(n.second);
            if (st.size() > 1) probe("crash_choices");
        }
    }
}

// ------------------------------------------------------------------ building blocks
AppOp &op_tag(Plan &p, int ph, int c, int kind, int slot, bool cont, const std::string &name) {
    AppOp &a = p.add(ph, c, kind);
    a.a[0] = slot; a.a[1] = cont;
    sets(a.s1, name);
    return a;
}
std::string colliding_name(Rng &r, const std::string &prefix, int i) {
    // "Az" and "BY" add the same amount to the djb2 hash
    static const char *two[][2] = {{"Az", "BY"}, {"Cz", "DY"}, {"Ez", "FY"}};
    return prefix + two[(i / 2) % 3][i % 2] + (i >= 6 ? std::to_string(i / 6) : "");
}
void rand_tag_value(Rng &r, AppOp &o) {
    static const int T[] = {0, 1, 2, 4, 7, 8, 10, 12};
    int type = T[r.below(8)];
    u64 n;
    int how = (int)r.below(10);
    if (how < 6) n = (u64)r.range(1, 16); else if (how < 9) n = (u64)r.range(1, 200); else n = (u64)r.range(200, 5000);
    std::string v;
    bool z = r.chance(0.3);
    for (u64 i = 0; i < n; i++) v += (char)(z ? r.below(2) : r.below(256));
    o.a[2] = type;
    const std::string &s = pool(v);
    o.in = s.data();
    o.nin = s.size();
}

// ------------------------------------------------------------------ workloads
namespace {
struct W {
    double del = 0.1, tag = 0.5, member = 0.2, cont = 0.3;
    int nobj = 4, ncont = 2, ntag = 3;
    bool shared = false; // all clients use the same names
    bool collide = true;
    double ts = 0; // objects of other time steps than 0
    double upd = 0; // string tags and changes of the application
    int pad = 0;    // some names are that much longer
};
std::string oname(const W &w, Rng &r, int c, int i) { std::string pre = w.shared ? "o" : strf("o%d", c); return w.collide ? colliding_name(r, pre, i) : pre + strf("_%d", i); }
std::string cname(const W &w, Rng &r, int c, int i) { std::string pre = w.shared ? "o" : strf("k%d", c); return w.collide ? colliding_name(r, pre, i) : pre + strf("_%d", i); }
ObjDef odef(Rng &r, const std::string &n, int slot, int nserver) { ObjDef o = rand_obj(r, n, slot); if (nserver > 1) o.part &= 1; return o; }
// slots: containers 1..ncont (0 holds a container to create objects in), objects 0..nobj-1
void meta_ops(Rng &r, Plan &p, int ph, int c, const W &w, int n) {
    for (int k = 0; k < n; k++) {
        bool cont = r.chance(w.cont);
        int i = (int)r.below(cont ? w.ncont : w.nobj);
        int slot = cont ? 1 + i : i;
        std::string nm = cont ? cname(w, r, c, i) : oname(w, r, c, i);
        double x = r.unit();
        auto setup = [&](AppOp &a) { if (w.pad && i % 2) a.a[36] = w.pad; };
        if (!cont && w.upd > 0 && r.chance(w.upd)) {
            int k2 = (int)r.below(10);
            AppOp &a = p.add(ph, c, k2 < 5 ? STR_TAG : k2 < 9 ? META_UPD : OBJ_DEL_NAME);
            if (a.kind == STR_TAG) { a.a[0] = slot; sets(a.s1, strf("s%d", (int)r.below(4))); if (r.chance(0.15)) a.a[36] = r.range(1, 2100); continue; }
            sets(a.s1, nm);
            setup(a);
            if (w.ts > 0 && r.chance(w.ts)) a.a[7] = 1 + r.below(3);
            if (a.kind == META_UPD) { sets(a.s2, strf("upd%d", (int)r.below(3))); if (r.chance(0.4)) sets(a.s3, strf("u%d", (int)r.below(4))); }
            continue;
        }
        if (x < w.del) op1(p, ph, c, cont ? CONT_DEL : OBJ_DEL, slot);
        else if (x < w.del + w.tag) {
            std::string t = strf("t%d", (int)r.below(w.ntag));
            int k2 = (int)r.below(10);
            AppOp &a = op_tag(p, ph, c, k2 < 4 ? TAG_PUT : k2 < 8 ? TAG_GET : TAG_DEL, slot, cont, t);
            if (a.kind == TAG_PUT) rand_tag_value(r, a);
        }
        else if (x < w.del + w.tag + w.member) {
            AppOp &a = p.add(ph, c, r.chance(0.65) ? CONT_ADD : CONT_RM);
            a.a[0] = 1 + r.below(w.ncont);
            if (r.chance(w.nobj > 36 ? 0.6 : 0.1)) { a.a[39] = 1; a.a[2] = r.below(w.nobj); a.a[1] = r.range(1, w.nobj - a.a[2]); }
            else {
                a.a[1] = r.chance(0.1) ? 30 : 1 + (i64)r.below(std::min(w.nobj, 36));
                for (int j = 0; j < a.a[1]; j++) a.a[2 + j] = r.below(w.nobj);
            }
        }
        else if (x < w.del + w.tag + w.member + 0.05) op1(p, ph, c, K_SLEEP, r.range(1000, 200000000));
        else if (cont) { op_cont(p, ph, c, slot, nm.c_str(), r.chance(0.6)); setup(p.phases[ph].ops[c].back()); }
        else {
            bool mk = r.chance(0.55);
            if (mk) op_create_obj(p, ph, c, odef(r, nm, slot, CFG.nserver), 0);
            else op_open_obj(p, ph, c, ObjDef{nm, 1, {1, 1, 1}, 0, 4, 0, slot});
            setup(p.phases[ph].ops[c].back());
            if (mk && w.upd > 0 && r.chance(0.3)) sets(p.phases[ph].ops[c].back().s3, "first,second");
            if (w.ts > 0 && r.chance(w.ts)) p.phases[ph].ops[c].back().a[7] = mk || r.chance(0.9) ? 1 + r.below(3) : -1;
        }
    }
}
// look at everything: open each name, get each tag, probe each container
void pad_last(Plan &p, int ph, int c, const W &w, int i) { if (w.pad && i % 2) p.phases[ph].ops[c].back().a[36] = w.pad; }
void meta_look(Rng &r, Plan &p, int ph, int c, const W &w, bool probe) {
    for (int i = 0; i < w.nobj; i++) {
        op_open_obj(p, ph, c, ObjDef{oname(w, r, c, i), 1, {1, 1, 1}, 0, 4, 0, i}); pad_last(p, ph, c, w, i);
        for (int t = 0; t < w.ntag; t++) op_tag(p, ph, c, TAG_GET, i, false, strf("t%d", t));
        if (w.ts > 0) for (int t = 1; t <= 3; t++) { op_open_obj(p, ph, c, ObjDef{oname(w, r, c, i), 1, {1, 1, 1}, 0, 4, 0, i}); pad_last(p, ph, c, w, i); p.phases[ph].ops[c].back().a[7] = t; }
    }
    for (int i = 0; i < w.ncont; i++) {
        op_cont(p, ph, c, 1 + i, cname(w, r, c, i).c_str(), false); pad_last(p, ph, c, w, i);
        for (int t = 0; t < w.ntag; t++) op_tag(p, ph, c, TAG_GET, 1 + i, true, strf("t%d", t));
        if (probe) { AppOp &a = p.add(ph, c, CONT_PROBE); sets(a.s1, cname(w, r, c, i)); pad_last(p, ph, c, w, i); }
    }
}
void open_all(Rng &r, Plan &p, int ph, int c, const W &w) {
    for (int i = 0; i < w.nobj; i++) { op_open_obj(p, ph, c, ObjDef{oname(w, r, c, i), 1, {1, 1, 1}, 0, 4, 0, i}); pad_last(p, ph, c, w, i); }
    for (int i = 0; i < w.ncont; i++) { op_cont(p, ph, c, 1 + i, cname(w, r, c, i).c_str(), false); pad_last(p, ph, c, w, i); }
}
}
// An object is named by its name, time step, user and application: with the application of an object
// changed, a creation of the same name makes another one. The model knows names and time steps only, so
// that a plan with such a change has no creation that could follow it.
void settle_app_changes(Rng &r, Plan &p) {
    bool drop_creates = r.chance(0.5);
    for (size_t ph = 0; ph < p.phases.size(); ph++) for (size_t c = 0; c < p.phases[ph].ops.size(); c++)
        for (size_t i = 0; i < p.phases[ph].ops[c].size(); i++) {
            AppOp &u = p.phases[ph].ops[c][i];
            if (u.kind != META_UPD || !u.s2[0]) continue;
            for (size_t q = ph; q < p.phases.size(); q++) for (size_t d = 0; d < p.phases[q].ops.size(); d++)
                for (size_t j = 0; j < p.phases[q].ops[d].size(); j++) {
                    AppOp &o = p.phases[q].ops[d][j];
                    if (o.kind != OBJ_CREATE || strcmp(o.s1, u.s1) || o.a[36] != u.a[36] || (q == ph && d == c && j < i)) continue;
                    if (!drop_creates || (o.a[7] == 0 && q == 0 && j < 12)) { u.s2[0] = 0; continue; }
                    AppOp n; memset(&n, 0, sizeof n);
                    n.kind = OBJ_OPEN; n.a[0] = o.a[0]; n.a[7] = o.a[7]; n.a[36] = o.a[36]; memcpy(n.s1, o.s1, sizeof n.s1);
                    o = n;
                }
        }
}
// More time steps of one name than the server lists without a filter: names made of it stay unique
void many_steps(Rng &r, Plan &p) {
    int n = 66 * CFG.nserver + (int)r.below(20), nc = CFG.nclient;
    for (int c = 0; c < nc; c++) op_cont(p, 0, c, 0, "base", true);
    for (int t = 1; t <= n; t++) {
        int c = t % nc;
        op_create_obj(p, 0, c, ObjDef{"step", 1, {4, 1, 1}, 0, 4, 0, t % 8}, 0);
        AppOp &a = p.phases[0].ops[c].back(); a.a[7] = t; a.a[8] = 7;
    }
    for (int rd = 0; rd < 2; rd++) {
        for (int c = 0; c < nc; c++) op1(p, 0, c, K_BARRIER, 20 + rd);
        for (int c = 0; c < nc; c++) for (int k = 0; k < 12; k++) {
            int t = 1 + (int)r.below(n + 4);
            double x = r.unit();
            if (x < 0.3) { AppOp &a = p.add(0, c, OBJ_DEL_NAME); sets(a.s1, "step"); a.a[7] = t; }
            else if (x < 0.8) { op_create_obj(p, 0, c, ObjDef{"step", 1, {4, 1, 1}, 0, 4, 0, t % 8}, 0); AppOp &a = p.phases[0].ops[c].back(); a.a[7] = t; a.a[8] = 7; if (r.chance(0.3)) { AppOp &d = p.add(0, c, OBJ_DEL); d.a[0] = t % 8; } }
            else { op_open_obj(p, 0, c, ObjDef{"step", 1, {1, 1, 1}, 0, 4, 0, t % 8}); p.phases[0].ops[c].back().a[7] = t; }
        }
    }
}
// ------------------------------------------------------------------ P05
static void p05_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 2);
    CFG.tmpfs_ckpt = r.chance(0.2);
    int nph = 2 + (int)r.below(3);
    p.phases.resize(nph);
    W w;
    w.nobj = 1 + (int)r.below(5); w.ncont = 1 + (int)r.below(3); w.ntag = 1 + (int)r.below(3);
    w.collide = r.chance(0.5);
    w.del = r.chance(0.5) ? 0.12 : 0.02;
    if (r.chance(0.3)) w.ts = 0.5;
    if (r.chance(0.3)) w.upd = 0.3;
    if (r.chance(0.15)) w.pad = (int)r.range(1010, 1030);
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("base%d", c).c_str(), ph == 0);
            if (ph == 0) open_all(r, p, ph, c, w); else if (r.chance(0.8)) meta_look(r, p, ph, c, w, true);
            if (ph + 1 < nph || r.chance(0.3)) meta_ops(r, p, ph, c, w, 4 + (int)r.below(30));
            if (ph + 1 == nph) meta_look(r, p, ph, c, w, true);
        }
        if (r.chance(0.35)) {
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500);
            op1(p, ph, 0, CKPT);
            if (r.chance(0.5)) meta_ops(r, p, ph, 0, w, 1 + (int)r.below(6));
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 501);
            p.phases[ph].end_close = false;
        }
        else op_close(p, ph);
    }
    settle_app_changes(r, p);
}
static void p05_check(Plan &p) { check_meta(p, MetaRules()); }
static Reg_ r05({"P05", p05_gen, p05_check, nullptr, 1, nullptr});
// ------------------------------------------------------------------ P08
static void p08_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 3);
    CFG.nclient = 2 + (int)r.below(3);
    p.phases.resize(1);
    W w;
    w.shared = true; w.nobj = 1 + (int)r.below(3); w.ncont = 1 + (int)r.below(2); w.tag = 0; w.member = 0;
    w.collide = r.chance(0.6); w.cont = r.chance(0.3) ? 0.8 : 0.3; w.del = 0.15 + 0.2 * r.unit();
    if (r.chance(0.25)) w.ts = 0.6;
    if (r.chance(0.3)) w.upd = 0.25;
    if (r.chance(0.15)) w.pad = (int)r.range(1010, 1030);
    if (r.chance(0.04)) { CFG.nserver = 1 + (int)r.below(2); many_steps(r, p); op_close(p, 0); return; }
    bool reopen = r.chance(0.25);
    if (reopen) { p.phases.resize(2); p.phases[1].restart = true; }
    for (size_t ph = 0; ph < p.phases.size(); ph++) {
        for (int c = 0; c < CFG.nclient; c++) op_cont(p, ph, c, 0, "base", true);
        int rounds = 1 + (int)r.below(3);
        for (int rd = 0; rd < rounds; rd++) {
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 10 + rd);
            for (int c = 0; c < CFG.nclient; c++) meta_ops(r, p, ph, c, w, 2 + (int)r.below(5));
        }
        for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 100);
        for (int c = 0; c < CFG.nclient; c++) if (c == 0 || r.chance(0.5)) open_all(r, p, ph, c, w);
        op_close(p, (int)ph);
    }
    settle_app_changes(r, p);
}
static Reg_ r08({"P08", p08_gen, p05_check, nullptr, 1, nullptr});
// ------------------------------------------------------------------ P09
static void p09_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 3);
    p.phases.resize(1);
    W w;
    w.shared = true; w.nobj = 1 + (int)r.below(2); w.ncont = 1 + (int)r.below(2); w.ntag = 1 + (int)r.below(3); w.tag = 0.9; w.member = 0; w.del = r.chance(0.2) ? 0.04 : 0;
    w.collide = r.chance(0.5);
    if (r.chance(0.2)) w.ts = 0.4;
    if (r.chance(0.4)) w.upd = 0.3;
    for (int c = 0; c < CFG.nclient; c++) op_cont(p, 0, c, 0, "base", true);
    for (int i = 0; i < w.nobj; i++) op_create_obj(p, 0, 0, odef(r, oname(w, r, 0, i), i, CFG.nserver), 0);
    for (int i = 0; i < w.ncont; i++) op_cont(p, 0, 0, 1 + i, cname(w, r, 0, i).c_str(), true);
    for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 1);
    for (int c = 1; c < CFG.nclient; c++) open_all(r, p, 0, c, w);
    int rounds = 1 + (int)r.below(3);
    for (int rd = 0; rd < rounds; rd++) {
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 10 + rd);
        for (int c = 0; c < CFG.nclient; c++) meta_ops(r, p, 0, c, w, 2 + (int)r.below(8));
    }
    for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 100);
    meta_look(r, p, 0, 0, w, false);
    op_close(p, 0);
    settle_app_changes(r, p);
}
static Reg_ r09({"P09", p09_gen, p05_check, nullptr, 1, nullptr});
// ------------------------------------------------------------------ P10
static void p10_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 3);
    p.phases.resize(1);
    W w;
    w.shared = true; w.nobj = r.chance(0.15) ? 60 + (int)r.below(80) : 2 + (int)r.below(30); w.ncont = 1 + (int)r.below(3); w.tag = 0; w.member = 0.9; w.del = r.chance(0.3) ? 0.03 : 0; w.cont = 0.9;
    w.collide = false;
    for (int c = 0; c < CFG.nclient; c++) op_cont(p, 0, c, 0, "base", true);
    for (int i = 0; i < w.nobj; i++) op_create_obj(p, 0, 0, odef(r, oname(w, r, 0, i), i, CFG.nserver), 0);
    for (int i = 0; i < w.ncont; i++) op_cont(p, 0, 0, 1 + i, cname(w, r, 0, i).c_str(), true);
    for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 1);
    for (int c = 1; c < CFG.nclient; c++) open_all(r, p, 0, c, w);
    int rounds = 1 + (int)r.below(4);
    for (int rd = 0; rd < rounds; rd++) {
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 10 + 2 * rd);
        for (int c = 0; c < CFG.nclient; c++) meta_ops(r, p, 0, c, w, 1 + (int)r.below(5));
        for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 11 + 2 * rd);
        for (int i = 0; i < w.ncont; i++) { AppOp &a = p.add(0, 0, CONT_PROBE); sets(a.s1, cname(w, r, 0, i)); }
    }
    op_close(p, 0);
}
static Reg_ r10({"P10", p10_gen, p05_check, nullptr, 1, nullptr});

// ------------------------------------------------------------------ P06
static Work region_work(Rng &r, int c) {
    Work w;
    int nobj = 1 + (int)r.below(2);
    for (int i = 0; i < nobj; i++) { ObjDef o = rand_obj(r, strf("d%d_%d", c, i), 40 + i); if (CFG.nserver > 1) o.part &= 1; w.objs.push_back(o); }
    w.prev.resize(nobj);
    return w;
}
static void region_open(Plan &p, int ph, int c, const Work &w, bool create) {
    for (auto &o : w.objs) { if (create) op_create_obj(p, ph, c, o, 0); op_open_obj(p, ph, c, o); }
}
static Fault ckpt_fault(Rng &r, Plan &p) {
    Fault f;
    f.id = p.next_id++;
    int how = (int)r.below(10);
    if (how < 7) {
        f.kind = "crash";
        f.rank = r.chance(0.5) ? -1 : (int)r.below(CFG.nserver);
        if (how < 4) { f.match = "metadata_checkpoint"; f.nth = r.below(r.chance(0.5) ? 6 : 40); }
        else if (how < 6) f.nth = r.below(r.chance(0.5) ? 20 : 120);
        else f.after_ns = (u64)r.range(1, 2000000000);
    }
    else {
        f.kind = "disk";
        static const char *E[] = {"EIO", "ENOSPC", "ENOSPC", "short", "EINTR"};
        f.disk.err = E[r.below(5)];
        f.disk.match = "metadata_checkpoint";
        static const char *K[] = {"any", "write", "write", "write", "open", "rename"};
        f.disk.kind = f.disk.err == "short" || f.disk.err == "EINTR" ? "write" : K[r.below(6)];
        f.disk.nth = r.below(r.chance(0.5) ? 3 : 20);
        f.disk.count = r.chance(0.3) ? 1000 : 1;
    }
    return f;
}
static void p06_gen(Rng &r, Plan &p, int v) {
    swarm(r, 3, 2);
    CFG.tmpfs_ckpt = r.chance(0.2);
    int nph = 2 + (int)r.below(4);
    nph = std::min(nph, 12 / std::max(CFG.nserver, CFG.nclient));
    p.phases.resize(nph);
    W w;
    w.nobj = 1 + (int)r.below(4); w.ncont = 1 + (int)r.below(2); w.ntag = 1 + (int)r.below(2);
    w.collide = r.chance(0.3);
    w.del = r.chance(0.5) ? 0.1 : 0.02;
    std::vector<Work> rw;
    for (int c = 0; c < CFG.nclient; c++) rw.push_back(region_work(r, c));
    bool big = r.chance(0.3); // a tag that makes the checkpoint span several writes of the stdio buffer
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        p.phases[ph].expect_start = ph == 0;
        bool last = ph + 1 == nph;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("base%d", c).c_str(), true);
            if (ph == 0) open_all(r, p, ph, c, w); else if (last || r.chance(0.7)) meta_look(r, p, ph, c, w, true);
            region_open(p, ph, c, rw[c], !last);
            if (ph) for (auto &o : rw[c].objs) if (last || r.chance(0.5)) op_read_all(r, p, ph, c, 0, o);
        }
        if (last) { op_close(p, ph); break; }
        int rounds = 1 + (int)r.below(3);
        for (int rd = 0; rd < rounds; rd++) {
            for (int c = 0; c < CFG.nclient; c++) {
                if (big && r.chance(0.5)) { AppOp &a = op_tag(p, ph, c, TAG_PUT, (int)r.below(w.nobj), false, "big"); rand_tag_value(r, a); static const std::string &B = pool(std::string(9000, 'b')); a.in = B.data(); a.nin = (u64)r.range(3000, 9000); }
                meta_ops(r, p, ph, c, w, 1 + (int)r.below(8));
                if (r.chance(0.7)) rand_ops(r, p, ph, c, rw[c], 1 + (int)r.below(6), false);
            }
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500 + 2 * rd);
            if (rd + 1 < rounds || r.chance(0.5)) op1(p, ph, 0, CKPT);
            if (r.chance(0.6)) for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 501 + 2 * rd);
        }
        if (r.chance(0.5)) p.phases[ph].end_close = false; else op_close(p, ph);
        if (r.chance(0.8)) p.phases[ph].faults.push_back(ckpt_fault(r, p));
    }
}
static void p06_check(Plan &p) {
    check_meta(p, MetaRules());
    RegionRules ru;
    ru.crash_torn = true; ru.agree = false;
    check_regions(p, ru);
    for (size_t ph = 1; ph < p.phases.size(); ph++) if (p.phases[ph].started && p.phases[ph - 1].crashed) probe("restart_after_crash");
}
static Reg_ r06({"P06", p06_gen, p06_check, nullptr, 1, region_fill});
// ------------------------------------------------------------------ P23
static void p23_gen(Rng &r, Plan &p, int v) {
    swarm(r, 4, 3);
    if (r.chance(0.5)) CFG.cache_flush_s = (int)r.below(2);
    CFG.tmpfs_ckpt = r.chance(0.1);
    int nph = 2 + (int)r.below(2);
    nph = std::max(2, std::min(nph, 12 / std::max(CFG.nserver, CFG.nclient)));
    p.phases.resize(nph);
    W w;
    w.nobj = 1 + (int)r.below(4); w.ncont = 1 + (int)r.below(2); w.ntag = 1 + (int)r.below(2);
    w.collide = r.chance(0.3);
    if (r.chance(0.25)) w.ts = 0.5;
    std::vector<Work> rw;
    for (int c = 0; c < CFG.nclient; c++) {
        Work x;
        int n = 1 + (int)r.below(2);
        for (int i = 0; i < n; i++) x.objs.push_back(rand_obj(r, strf("d%d_%d", c, i), 40 + i));
        x.prev.resize(n);
        rw.push_back(x);
    }
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        bool last = ph + 1 == nph;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("base%d", c).c_str(), true);
            if (ph == 0) open_all(r, p, ph, c, w); else meta_look(r, p, ph, c, w, true);
            region_open(p, ph, c, rw[c], ph == 0);
            if (ph) for (auto &o : rw[c].objs) op_read_all(r, p, ph, c, 0, o);
        }
        if (last && r.chance(0.7)) { op_close(p, ph); break; }
        bool loose = CFG.nclient < CFG.nserver && CFG.nclient > 1 && r.chance(0.8);
        p.phases[ph].loose_close = loose;
        if (loose && ph == 0) for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500);
        for (int c = 0; c < CFG.nclient; c++) {
            int rounds = loose && c ? 2 + (int)r.below(5) : (int)r.below(3);
            for (int k = 0; k < rounds; k++) {
                if (r.chance(0.6)) meta_ops(r, p, ph, c, w, 1 + (int)r.below(4));
                if (r.chance(0.8)) rand_ops(r, p, ph, c, rw[c], 1 + (int)r.below(4), false);
            }
            int out = r.chance(0.6) ? 1 + (int)r.below(6) : 0; // left outstanding
            if (out) p.phases[ph].loose_close = true; // a client that never waited for its transfers has nobody to ask once the servers are gone
            for (int k = 0; k < out; k++) {
                auto &o = rw[c].objs[r.below(rw[c].objs.size())];
                i64 off[3] = {0, 0, 0}, size[3] = {1, 1, 1};
                rand_region(r, o, off, size);
                op_rw(r, p, ph, c, 10 + k, o, r.chance(0.8), off, size, false);
            }
            if (r.chance(0.5)) op1(p, ph, c, FLUSH_ALL);
            if (r.chance(0.2)) rand_sleep(r, p, ph, c);
        }
        if (!loose) op_close(p, ph);
        if (loose) { if (r.chance(0.7)) op1(p, ph, 0, K_SLEEP, r.range(1000, r.chance(0.5) ? 3000000 : 300000000)); op1(p, ph, 0, CLOSE_SERVERS); }
    }
}
static void p23_check(Plan &p) {
    for (AppOp *o : p.all()) { // what was stored by a closed session is found by the next one
        if (o->status == 2 && o->phase > 0 && o->kind == OBJ_OPEN && o->s1[0] == 'd' && o->ret <= 0) {
            for (AppOp *c : p.all())
                if (c->kind == OBJ_CREATE && !strcmp(c->s1, o->s1) && c->phase < o->phase && c->status == 2 && c->ret > 0) { fail("object_lost", strf("%s: the object is not found after an orderly close", describe(*o).c_str())); return; }
        }
    }
    for (auto &ph : p.phases) { S.st.checks++; if (ph.started && ph.end_close && ph.servers_exited < CFG.nserver) { fail("not_closed", "a server did not stop by itself"); return; } if (ph.loose_close) probe("closed under load"); }
    check_meta(p, MetaRules());
    RegionRules ru;
    ru.agree = false; ru.placement = true;
    check_regions(p, ru);
}
static Reg_ r23({"P23", p23_gen, p23_check, nullptr, 1, region_fill});
// ------------------------------------------------------------------ P07
static void p07_gen(Rng &r, Plan &p, int v) {
    swarm(r, 4, 4);
    CFG.nclient = 1 + (int)r.below(4);
    CFG.tmpfs_ckpt = r.chance(0.1);
    int nph = 1 + (int)r.below(4);
    nph = std::min(nph, 12 / std::max(CFG.nserver, CFG.nclient));
    p.phases.resize(nph);
    W w;
    w.shared = r.chance(0.5); w.tag = 0; w.member = 0; w.cont = 0.35;
    w.nobj = 1 + (int)r.below(12); w.ncont = 1 + (int)r.below(6);
    w.collide = r.chance(0.3); w.del = r.chance(0.5) ? 0.3 : 0.05;
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        p.phases[ph].expect_start = ph == 0;
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, "base", true);
            meta_ops(r, p, ph, c, w, 4 + (int)r.below(w.shared ? 8 : 20));
        }
        if (r.chance(0.35)) {
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 500);
            op1(p, ph, 0, CKPT);
            if (r.chance(0.3)) meta_ops(r, p, ph, 0, w, 1 + (int)r.below(6));
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 501);
            p.phases[ph].end_close = false;
            if (r.chance(0.3)) { Fault f; f.id = p.next_id++; f.kind = "crash"; f.match = "metadata_checkpoint"; f.nth = r.below(10); p.phases[ph].faults.push_back(f); }
        }
        else op_close(p, ph);
    }
}
static Reg_ r07({"P07", p07_gen, p05_check, nullptr, 1, nullptr});
