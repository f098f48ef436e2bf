// P12: searches of the distributed index through the whole system, against the set of inserted entries.
#include "regions.h"
#include <algorithm>

namespace {
struct Ent { std::string key, val; u64 id; bool operator<(const Ent &o) const { return std::tie(key, val, id) < std::tie(o.key, o.val, o.id); } };
enum { EXACT, PRE, SUF, MID };
bool pat(const std::string &s, const std::string &q) {
    bool b = !q.empty() && q[0] == '*', e = !q.empty() && q.back() == '*';
    if (!b && !e) return s == q;
    if (b && e) { std::string t = q.size() < 2 ? "" : q.substr(1, q.size() - 2); return s.find(t) != std::string::npos; }
    if (b) { std::string t = q.substr(1); return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
    return s.compare(0, q.size() - 1, q, 0, q.size() - 1) == 0;
}
void p12_check(Plan &p) {
    struct Chg { bool ins; u64 t0, t1; };
    std::map<Ent, std::vector<Chg>> h;
    std::vector<AppOp *> q;
    for (AppOp *o : p.all()) {
        if (o->status == 0 || o->status == 3) continue;
        if (o->kind == DART_INS || o->kind == DART_DEL) {
            h[Ent{o->s1, o->s2, (u64)o->a[1]}].push_back({o->kind == DART_INS, o->t0, o->status == 2 ? o->t1 : ~0ull});
            if (o->status == 2 && o->ret < 0) { fail("index-write", describe(*o) + strf(" returns %lld", (long long)o->ret)); return; }
        }
        else if (o->kind == DART_SEARCH && o->status == 2) q.push_back(o);
    }
    for (AppOp *o : q) {
        std::string s = o->s1, kq = s.substr(0, s.find('=')), vq = s.substr(s.find('=') + 1);
        std::vector<u64> ids((u64 *)o->out, (u64 *)o->out + o->nout / 8);
        std::set<u64> got(ids.begin(), ids.end());
        S.st.checks++;
        S.st.cells += ids.size();
        if (o->ret < 0 || o->r[0] < 0 || (u64)o->r[0] != ids.size()) { fail("index-search", describe(*o) + strf(" returns %lld with %lld results", (long long)o->ret, (long long)o->r[0])); return; }
        if (got.size() != ids.size()) { fail("index-duplicate", describe(*o) + ": an object is returned more than once"); return; }
        std::set<u64> may, must;
        std::map<u64, std::string> why;
        for (auto &e : h) {
            if (!pat(e.first.key, kq) || !pat(e.first.val, vq)) continue;
            // surely present: some insertion completed before the search began and no deletion can take effect after it and before the search ends
            bool present = false, possible = false;
            for (auto &c : e.second) {
                if (!c.ins || c.t0 > o->t1) continue;
                bool gone = false;   // some deletion began after this insertion completed and completed before the search began
                bool maybe = false;  // some deletion may come after it and before the search
                for (auto &d : e.second) {
                    if (d.ins) continue;
                    if (d.t0 > c.t1 && d.t1 < o->t0) gone = true;
                    if (d.t1 > c.t0 && d.t0 < o->t1) maybe = true;
                }
                if (c.t1 < o->t0 && !maybe) present = true;
                if (!gone) possible = true;
            }
            if (present) { must.insert(e.first.id); why[e.first.id] = e.first.key + "=" + e.first.val; }
            if (possible) may.insert(e.first.id);
            else probe("gone_entry");
            if (possible && !present) probe("racing_entry");
        }
        for (u64 i : must) if (!got.count(i)) { fail("index-missing", describe(*o) + strf(" returns %zu objects without %llu, which has %s", got.size(), (unsigned long long)i, why[i].c_str())); return; }
        for (u64 i : got)
            if (!may.count(i)) {
                std::string has;
                for (auto &e : h) if (e.first.id == i) { has += " " + e.first.key + "=" + e.first.val; has += e.second.back().ins ? "" : "(deleted)"; }
                fail("index-extra", describe(*o) + strf(" returns %llu, which was given:%s", (unsigned long long)i, has.substr(0, 500).c_str()));
                return;
            }
        if (!must.empty()) probe("found");
        if (must.empty() && may.empty()) probe("nothing");
    }
}
std::string word(Rng &r, int alpha) {
    int n = 1 + (int)(r.chance(0.85) ? r.below(5) : r.below(22));
    std::string s;
    static const char *odd = "_.-:/ ABZ019\x80\xfe~#";
    for (int i = 0; i < n; i++) s += r.chance(0.06) ? odd[r.below(16)] : (char)('a' + r.below(alpha));
    return s;
}
std::string pattern(Rng &r, const std::vector<std::string> &pool, int alpha) {
    std::string w = r.chance(0.9) ? pool[r.below(pool.size())] : word(r, alpha);
    if (w.empty()) return r.chance(0.5) ? "" : r.chance(0.5) ? "*" : "**";
    switch (r.below(4)) {
        case 0: return w;
        case 1: return w.substr(0, r.chance(0.15) ? 0 : 1 + r.below(w.size())) + "*";
        case 2: return "*" + (r.chance(0.5) ? w.substr(r.below(w.size())) : w);
        default: { u64 a = r.below(w.size()); return "*" + w.substr(a, 1 + r.below(w.size() - a)) + "*"; }
    }
}
void p12_gen(Rng &r, Plan &p, int) {
    swarm(r, 8, 3);
    if (r.chance(0.25)) CFG.nserver = 1 + (int)r.below(12);
    CFG.max_steps = 20000000;
    p.phases.resize(1);
    int alpha = 1 + (int)r.below(r.chance(0.7) ? 3 : 26);
    std::vector<std::string> keys, vals;
    int nk = 1 + (int)r.below(8), nv = 1 + (int)r.below(8);
    for (int i = 0; i < nk; i++) {
        std::string w = word(r, alpha);
        if (i && r.chance(0.3)) w += keys[r.below(keys.size())];        // shares a suffix
        else if (i && r.chance(0.3)) w = keys[r.below(keys.size())] + w; // shares a prefix
        for (char &c : w) if (c == '~') c = 'x';
        if (w.size() > 26) w.resize(26);
        keys.push_back(w);
    }
    for (int i = 0; i < nv; i++) {
        std::string w = word(r, alpha);
        if (i && r.chance(0.3)) w += vals[r.below(vals.size())];
        else if (i && r.chance(0.3)) w = vals[r.below(vals.size())] + w;
        if (r.chance(0.05)) w += "=x";
        for (char &c : w) if (c == '~') c = 'x';
        if (w.size() > 26) w.resize(26);
        vals.push_back(w);
    }
    if (r.chance(0.1)) vals.push_back("");
    int algo = r.chance(0.7) ? 3 : r.chance(0.5) ? 1 : 2;
    int nid = 1 + (int)r.below(12);
    bool shared = r.chance(0.5);
    double del = r.chance(0.3) ? 0 : 0.3 * r.unit();
    for (int c = 0; c < CFG.nclient; c++) {
        std::vector<std::tuple<std::string, std::string, i64>> put;
        int n = 3 + (int)r.below(r.chance(0.2) && CFG.nserver < 5 ? 80 : CFG.nserver > 5 ? 14 : 30);
        for (int k = 0; k < n; k++) {
            double x = r.unit();
            if (x < 0.45) {
                AppOp &a = p.add(0, c, DART_INS);
                a.a[0] = algo; a.a[1] = 1000 + r.below(nid) + (shared ? 0 : 100 * c);
                if (r.chance(0.02)) a.a[1] |= 0x7ull << 60;
                sets(a.s1, keys[r.below(keys.size())]); sets(a.s2, vals[r.below(vals.size())]);
                put.push_back({a.s1, a.s2, a.a[1]});
            }
            else if (x < 0.45 + del) {
                AppOp &a = p.add(0, c, DART_DEL);
                a.a[0] = algo; a.a[1] = 1000 + r.below(nid) + (shared ? 0 : 100 * c);
                sets(a.s1, keys[r.below(keys.size())]); sets(a.s2, vals[r.below(vals.size())]);
                if (!put.empty() && r.chance(0.8)) { auto &t = put[r.below(put.size())]; sets(a.s1, std::get<0>(t)); sets(a.s2, std::get<1>(t)); a.a[1] = std::get<2>(t); }
            }
            else if (x < 0.97) {
                AppOp &a = p.add(0, c, DART_SEARCH);
                a.a[0] = algo;
                sets(a.s1, pattern(r, keys, alpha) + "=" + pattern(r, vals, alpha));
            }
            else op1(p, 0, c, K_SLEEP, r.range(1000, 100000000));
        }
    }
    for (int c = 0; c < CFG.nclient; c++) op1(p, 0, c, K_BARRIER, 99);
    if (r.chance(0.4))
        for (int i = 1 + (int)r.below(4); i > 0; i--) { // all clients search together
            std::string q = pattern(r, keys, alpha) + "=" + pattern(r, vals, alpha);
            for (int c = 0; c < CFG.nclient; c++) { AppOp &a = p.add(0, c, DART_SEARCH); a.a[0] = algo; a.a[38] = 1; sets(a.s1, q); }
        }
    for (int c = 0; c < CFG.nclient; c++)
        for (int i = (int)r.below(12); i > 0; i--) {
            AppOp &a = p.add(0, c, DART_SEARCH);
            a.a[0] = algo;
            sets(a.s1, pattern(r, keys, alpha) + "=" + pattern(r, vals, alpha));
        }
    op_close(p, 0);
}
}
static Reg_ r12({"P12", p12_gen, p12_check, nullptr, 1, nullptr});
