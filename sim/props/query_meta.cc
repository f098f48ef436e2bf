// P11: tag queries and metadata queries against the objects that exist, on all servers.
#include "meta.h"
#include <algorithm>

namespace {
bool pat(const std::string &s, const std::string &q) {
    bool b = !q.empty() && q[0] == '*', e = !q.empty() && q.back() == '*';
    if (q == "*") return true;
    if (!b && !e) return s == q;
    if (b && e) return s.find(q.substr(1, q.size() - 2)) != std::string::npos;
    if (b) { std::string t = q.substr(1); return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
    return s.compare(0, q.size() - 1, q, 0, q.size() - 1) == 0;
}
struct Tag { int type; std::string v; };
struct Step { u64 t0, t1; bool live; std::map<std::string, Tag> tags; std::string app, st; };
struct Obj { u64 id; int server; AppOp *create; std::vector<Step> st; };
bool match_tags(const Step &s, const AppOp *q) {
    if (!s.live) return false;
    std::string qv((const char *)q->in, q->nin);
    for (auto &t : s.tags) {
        if (!pat(t.first, q->s1) || t.second.type != q->a[0]) continue;
        if (q->a[0] == 4 ? pat(t.second.v.c_str(), qv.c_str()) : t.second.v == qv) return true;
    }
    return false;
}
bool match_meta(const Obj &o, const Step &s, const AppOp *q) {
    if (!s.live) return false;
    const AppOp *c = o.create;
    if (q->a[4] == 1) return true;
    if (q->a[0] > 0 && q->a[0] != c->a[8]) return false;
    if (q->s2[0] && s.app != q->s2) return false;
    if (q->s1[0] && strcmp(q->s1, c->s1)) return false;
    if (q->a[1] > 0 && q->a[2] > 0 && (c->a[7] < q->a[1] || c->a[7] > q->a[2])) return false;
    if (q->a[3] > 0 && q->a[3] != c->a[2]) return false;
    if (q->s3[0] && s.st.find(q->s3) == std::string::npos) return false;
    return true;
}
void p11_check(Plan &p) {
    std::map<u64, Obj> objs;
    std::vector<AppOp *> qs;
    int nc = CFG.nclient, ns = CFG.nserver;
    for (auto &ph : p.phases)
        for (auto &c : ph.ops) {
            std::map<int, u64> slot;
            for (auto &o : c) {
                if (o.status == 0 || o.status == 3) continue;
                int s = (int)o.a[0];
                u64 t1 = o.status == 2 ? o.t1 : ~0ull;
                switch (o.kind) {
                case OBJ_CREATE: {
                    slot.erase(s);
                    if (o.status != 2 || o.ret <= 0) break;
                    slot[s] = (u64)o.r[0];
                    Obj &x = objs[(u64)o.r[0]];
                    x.id = (u64)o.r[0]; x.server = (int)o.r[1]; x.create = &o;
                    x.st.push_back({o.t0, t1, true, {}, o.s2, o.s3[0] ? o.s3 : " "});
                    break;
                }
                case OBJ_OPEN: slot.erase(s); if (o.ret > 0) slot[s] = (u64)o.r[0]; break;
                case OBJ_DEL: case TAG_PUT: case TAG_DEL: {
                    if (!slot.count(s) || !objs.count(slot[s])) break;
                    Obj &x = objs[slot[s]];
                    Step n = x.st.back();
                    n.t0 = o.t0; n.t1 = t1;
                    if (o.kind == OBJ_DEL) { n.live = false; n.tags.clear(); }
                    else if (o.kind == TAG_DEL) n.tags.erase(o.s1);
                    else n.tags[o.s1] = Tag{(int)o.a[2], std::string((const char *)o.in, o.nin)};
                    x.st.push_back(n);
                    break;
                }
                case STR_TAG: case META_UPD: {
                    u64 id = o.kind == META_UPD ? (u64)o.r[0] : slot.count(s) ? slot[s] : 0;
                    if (!objs.count(id) || (o.status == 2 && o.ret < (o.kind == META_UPD ? 1 : 0))) break;
                    Obj &x = objs[id];
                    Step n = x.st.back();
                    n.t0 = o.t0; n.t1 = t1;
                    if (o.kind == STR_TAG) n.st += std::string(",") + o.s1;
                    else { if (o.s2[0]) n.app = o.s2; if (o.s3[0]) n.st += std::string(",") + o.s3; }
                    x.st.push_back(n);
                    break;
                }
                case QUERY_TAG: case META_QUERY: if (o.status == 2) qs.push_back(&o); break;
                default: break;
                }
            }
        }
    for (AppOp *o : qs) {
        if (o->r[0] >= 1000) continue;
        bool tag = o->kind == QUERY_TAG;
        std::vector<u64> ids((u64 *)o->out, (u64 *)o->out + o->nout / 8);
        std::set<u64> got(ids.begin(), ids.end());
        std::string what = describe(*o) + (tag ? strf(" type %lld value of %llu bytes '%.40s'", (long long)o->a[0], (unsigned long long)o->nin, o->a[0] == 4 ? (const char *)o->in : "") : strf(" app '%s' tags '%s'", o->s2, o->s3));
        S.st.checks++;
        S.st.cells += ids.size();
        if (o->ret < 0 || (u64)o->r[0] != ids.size()) { fail("query-fails", what + strf(" returns %lld with %lld results", (long long)o->ret, (long long)o->r[0])); return; }
        if (got.size() != ids.size()) { fail("query-duplicate", what + strf(": %zu results, %zu distinct", ids.size(), got.size())); return; }
        int lo = 0, hi = ns; // the servers this client asks
        if (!tag && o->a[4] != 2) {
            if (ns > nc) { lo = o->client * (ns / nc); hi = lo + ns / nc + (o->client == nc - 1 ? ns % nc : 0); }
            else { lo = o->client; hi = o->client < ns ? lo + 1 : lo; }
        }
        for (auto &kv : objs) {
            Obj &x = kv.second;
            bool asked = x.server >= lo && x.server < hi;
            bool must = true, may = false, any = false;
            // states the object can be in while the query runs: the last one completed before it began, and every later one begun before it ended
            size_t first = 0;
            for (size_t i = 0; i < x.st.size(); i++) if (x.st[i].t1 < o->t0) { first = i; any = true; }
            if (!any) must = false; // not created yet when the query began
            for (size_t i = first; i < x.st.size(); i++) {
                if (x.st[i].t0 > o->t1) break;
                bool m = tag ? match_tags(x.st[i], o) : match_meta(x, x.st[i], o);
                may |= m;
                must &= m;
            }
            must &= may && asked;
            may &= asked;
            if (may && !must) probe("racing_update");
            if (must) probe("match");
            if (must && !got.count(x.id)) { fail("query-missing", what + strf(" by client %d of %d, %d servers: %zu results without object %llu ('%s', on server %d)", o->client, nc, ns, got.size(), (unsigned long long)x.id, x.create->s1, x.server)); return; }
            if (!may && got.count(x.id)) {
                std::string has = x.st[first].live ? "" : " deleted";
                for (auto &t : x.st[first].tags) has += strf(" %s:%d:%zu", t.first.c_str(), t.second.type, t.second.v.size());
                fail("query-extra", what + strf(" returns object %llu ('%s', on server %d), which does not match:%s", (unsigned long long)x.id, x.create->s1, x.server, has.substr(0, 300).c_str()));
                return;
            }
            got.erase(x.id);
        }
        if (!got.empty()) { fail("query-unknown", what + strf(" returns %llu, no object has that identifier", (unsigned long long)*got.begin())); return; }
    }
}
const char *TN[] = {"temp", "temperature", "pres", "Xtemp", "t", "pressure_temp", "te", "a.b"};
std::string tag_pattern(Rng &r) {
    std::string w = TN[r.below(8)];
    switch (r.below(7)) {
        case 0: return w.substr(0, 1 + r.below(w.size())) + "*";
        case 1: return "*" + w.substr(r.below(w.size()));
        case 2: { u64 a = r.below(w.size()); return "*" + w.substr(a, 1 + r.below(w.size() - a)) + "*"; }
        case 3: return r.chance(0.3) ? "*" : w;
        default: return w;
    }
}
struct Val { int type; std::string v; };
Val value(Rng &r) {
    static const char *SV[] = {"hot", "hotter", "cold", "a cold day", "h", "otter", "co", ""};
    static const int T[] = {0, 1, 2, 8};
    Val v;
    if (r.chance(0.5)) { v.type = 4; v.v = SV[r.below(8)]; v.v += '\0'; return v; }
    v.type = T[r.below(4)];
    int n = r.chance(0.6) ? 4 : 1 + (int)r.below(12);
    for (int i = 0; i < n; i++) v.v += (char)(i < 3 ? 5 : r.below(3)); // values that are prefixes of one another
    return v;
}
void add_query(Rng &r, Plan &p, int ph, int c, const std::vector<Val> &vals) {
    AppOp &a = p.add(ph, c, QUERY_TAG);
    sets(a.s1, tag_pattern(r));
    Val v = vals[r.below(vals.size())];
    if (v.type == 4 && r.chance(0.5)) {
        std::string w = v.v.c_str();
        if (w.empty()) w = "*";
        else switch (r.below(3)) {
            case 0: w = w.substr(0, 1 + r.below(w.size())) + "*"; break;
            case 1: w = "*" + w.substr(r.below(w.size())); break;
            default: { u64 b = r.below(w.size()); w = "*" + w.substr(b, 1 + r.below(w.size() - b)) + "*"; }
        }
        v.v = w + '\0';
    }
    else if (v.type != 4 && r.chance(0.2)) { if (r.chance(0.5)) v.v.resize(1 + r.below(v.v.size())); else v.v += (char)r.below(3); }
    a.a[0] = v.type;
    const std::string &s = pool(v.v);
    a.in = s.data(); a.nin = s.size();
}
void meta_query(Rng &r, Plan &p, int ph, int c, u64 how) {
    AppOp &a = p.add(ph, c, META_QUERY);
    Rng q;
    q.seed(how);
    a.a[0] = a.a[1] = a.a[2] = a.a[3] = -1;
    switch (q.below(9)) {
        case 0: a.a[4] = 1; break;
        case 1: a.a[0] = 1 + q.below(3); break;
        case 2: sets(a.s2, strf("app%d", (int)q.below(3))); break;
        case 3: a.a[1] = 1 + q.below(4); a.a[2] = a.a[1] + q.below(3); break;
        case 4: a.a[3] = 1 + q.below(3); break;
        case 5: sets(a.s3, q.chance(0.5) ? "red" : "g"); if (q.chance(0.6)) a.a[4] = 2; break;
        case 6: sets(a.s1, strf("m%d_%d", (int)q.below(CFG.nclient), (int)q.below(4))); break;
        case 7: a.a[0] = 1 + q.below(3); a.a[3] = 1 + q.below(3); sets(a.s2, strf("app%d", (int)q.below(3))); break;
        default: a.a[0] = 0; a.a[1] = 0; a.a[2] = 5; break; // no condition
    }
}
void p11_gen(Rng &r, Plan &p, int) {
    swarm(r, 4, 4);
    CFG.max_steps = 12000000;
    int nph = r.chance(0.3) ? 2 + (int)r.below(2) : 1;
    p.phases.resize(nph);
    bool many = r.chance(0.04);
    if (many) { CFG.nclient = 1; CFG.nserver = 1; }
    int nobj = many ? 70 + (int)r.below(70) : 1 + (int)r.below(8);
    std::vector<Val> vals;
    for (int i = 0; i < 1 + (int)r.below(5); i++) vals.push_back(value(r));
    bool quiet = r.chance(0.4); // queries only while nothing changes
    for (int ph = 0; ph < nph; ph++) {
        p.phases[ph].restart = ph > 0;
        int rounds = 1 + (int)r.below(3);
        for (int c = 0; c < CFG.nclient; c++) {
            op_cont(p, ph, c, 0, strf("base%d", c).c_str(), ph == 0);
            for (int i = 0; i < nobj && ph > 0; i++) op_open_obj(p, ph, c, ObjDef{strf("m%d_%d", c, i), 1, {1, 1, 1}, 0, 4, 0, i});
        }
        for (int rd = 0; rd < rounds; rd++) {
            for (int c = 0; c < CFG.nclient; c++) {
                int n = many ? nobj + 10 : 2 + (int)r.below(20);
                for (int k = 0; k < n; k++) {
                    int i = many && k < nobj ? k : (int)r.below(nobj);
                    double x = r.unit();
                    if (many && k < nobj) x = 0.1;
                    if (x < 0.35) {
                        ObjDef d = rand_obj(r, strf("m%d_%d", c, i), i);
                        op_create_obj(p, ph, c, d, 0);
                        AppOp &a = p.phases[ph].ops[c].back();
                        a.a[7] = r.chance(0.4) ? 0 : 1 + (i64)r.below(6); a.a[8] = 1 + r.below(3); a.a[9] &= 1;
                        sets(a.s2, strf("app%d", (int)r.below(3)));
                        if (r.chance(0.4)) sets(a.s3, r.chance(0.5) ? "red,green" : r.chance(0.5) ? "green" : "re d");
                    }
                    else if (x < 0.42) op1(p, ph, c, OBJ_DEL, i);
                    else if (x < 0.48) {
                        bool tag = r.chance(0.5);
                        AppOp &a = p.add(ph, c, tag ? STR_TAG : META_UPD);
                        if (tag) { a.a[0] = i; sets(a.s1, r.chance(0.5) ? "red" : "green"); continue; }
                        sets(a.s1, strf("m%d_%d", c, i)); a.a[7] = r.below(7);
                        if (r.chance(0.7)) sets(a.s2, strf("app%d", (int)r.below(3)));
                        if (r.chance(0.4)) sets(a.s3, r.chance(0.5) ? "red" : "g");
                    }
                    else if (x < 0.8) {
                        AppOp &a = op_tag(p, ph, c, r.chance(0.75) ? TAG_PUT : TAG_DEL, i, false, TN[r.below(8)]);
                        if (a.kind == TAG_PUT) { Val v = r.chance(0.8) ? vals[r.below(vals.size())] : value(r); a.a[2] = v.type; const std::string &s = pool(v.v); a.in = s.data(); a.nin = s.size(); }
                    }
                    else if (quiet) continue;
                    else if (x < 0.95) add_query(r, p, ph, c, vals);
                    else meta_query(r, p, ph, c, r.next());
                }
            }
            for (int c = 0; c < CFG.nclient; c++) op1(p, ph, c, K_BARRIER, 10 + 2 * rd);
            if (r.chance(0.4)) for (int k = 0; k < 1 + (int)r.below(3); k++) { // all clients ask together
                u64 h = r.next();
                for (int c = 0; c < CFG.nclient; c++) { Rng q; q.seed(h); add_query(q, p, ph, c, vals); p.phases[ph].ops[c].back().a[38] = 1; }
            }
            std::vector<u64> how;
            for (int k = 0; k < 1 + (int)r.below(4); k++) how.push_back(r.next());
            for (int c = 0; c < CFG.nclient; c++) {
                if (r.chance(0.7)) for (int k = 0; k < 1 + (int)r.below(6); k++) add_query(r, p, ph, c, vals);
                for (u64 h : how) meta_query(r, p, ph, c, h);
                op1(p, ph, c, K_BARRIER, 11 + 2 * rd);
            }
        }
        op_close(p, ph);
    }
}
}
static Reg_ r11({"P11", p11_gen, p11_check, nullptr, 1, nullptr});
