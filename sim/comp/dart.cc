// P13: placement and query routing of the distributed index, with the load reports of the servers chosen by the simulator.
#include "comp.h"
#include <algorithm>
#include <math.h>
extern "C" {
#include "dart_core.h"
}
namespace {
DART g_d;
int g_algo; // 0 DART, 1 hash of the whole key, 2 hash of the first character
struct Place { std::string key; std::vector<std::pair<u32, std::string>> at; };
std::vector<Place> g_in;
std::vector<i64> g_load;
bool g_bad_server;
dart_server load_of(uint32_t s) {
    dart_server r;
    memset(&r, 0, sizeof r);
    r.id = s;
    if (s >= g_d.num_server) { g_bad_server = true; return r; }
    // loads change at any time: other clients insert meanwhile
    if (chance(0.3, "load moves")) g_load[s] += choose(50, "load");
    if (chance(0.05, "load resets")) g_load[s] = 0;
    r.indexed_word_count = g_load[s];
    return r;
}
std::vector<std::pair<u32, std::string>> route(const char *key, dart_op_type_t op) {
    index_hash_result_t *out = nullptr;
    std::vector<char> k(key, key + strlen(key) + 1);
    int n = 0;
    if (g_algo == 0) n = DART_hash(&g_d, k.data(), op, op == OP_INSERT ? load_of : nullptr, &out);
    else n = DHT_hash(&g_d, g_algo == 1 ? strlen(key) : 1, k.data(), op, &out);
    std::vector<std::pair<u32, std::string>> v;
    for (int i = 0; i < n; i++) {
        v.push_back({out[i].server_id, out[i].key ? out[i].key : ""});
        S.mix(out[i].server_id);
        if (out[i].server_id >= g_d.num_server) { fail("server-range", strf("routing '%s' (operation %d) names server %u of %u", key, op, out[i].server_id, g_d.num_server)); break; }
    }
    if (n < 0) fail("routing", strf("routing '%s' (operation %d) returns %d", key, op, n));
    if (g_bad_server) fail("server-range", strf("placing '%s' asks for the load of a server that does not exist", key));
    return v;
}
bool ends(const std::string &a, const std::string &b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; }
bool begins(const std::string &a, const std::string &b) { return a.compare(0, b.size(), b) == 0; }
bool matches(const std::string &k, const std::string &t, dart_op_type_t op) {
    switch (op) {
        case OP_EXACT_QUERY: return k == t;
        case OP_PREFIX_QUERY: return begins(k, t);
        case OP_SUFFIX_QUERY: return ends(k, t);
        default: return k.find(t) != std::string::npos;
    }
}
const char *opname(dart_op_type_t o) { return o == OP_EXACT_QUERY ? "exact" : o == OP_PREFIX_QUERY ? "prefix" : o == OP_SUFFIX_QUERY ? "suffix" : "infix"; }
void exec(AppOp *o) {
    std::string k = o->s1, w = o->s2;
    if (k == "config") {
        memset(&g_d, 0, sizeof g_d);
        g_in.clear();
        g_algo = (int)o->a[5];
        dart_space_init(&g_d, (int)o->a[4], (int)o->a[0], (int)o->a[1], (int)o->a[2], (int)o->a[3]);
        g_load.assign(o->a[0], 0);
        return;
    }
    if (!g_d.num_server) return;
    if (k == "insert") {
        if (w.empty()) return;
        auto v = route(w.c_str(), OP_INSERT);
        CHECKED();
        g_in.erase(std::remove_if(g_in.begin(), g_in.end(), [&](const Place &p) { return p.key == w; }), g_in.end());
        g_in.push_back({w, v});
        for (auto &x : v) if (x.first < g_load.size()) g_load[x.first]++;
        if (g_algo == 0) { // the promised number of replicas for every token
            std::map<std::string, int> n;
            for (auto &x : v) n[x.second]++;
            for (auto &x : n)
                if (x.second < g_d.replication_factor) { fail("replicas", strf("token '%s' of '%s' is placed %d times, replication factor %d", x.first.c_str(), w.c_str(), x.second, g_d.replication_factor)); return; }
            if (!n.count(w)) fail("placement", strf("no placement for the keyword '%s' itself", w.c_str()));
        }
        else if (v.size() != 1) fail("placement", strf("'%s' is placed %zu times", w.c_str(), v.size()));
    }
    else if (k == "delete") {
        for (size_t i = 0; i < g_in.size(); i++)
            if (g_in[i].key == w) {
                auto v = route(w.c_str(), OP_DELETE);
                CHECKED();
                for (auto &x : g_in[i].at)
                    if (std::find(v.begin(), v.end(), x) == v.end()) { fail("delete-misses", strf("'%s' was placed on server %u under '%s', but its deletion is not sent there (%u servers, alphabet %d, height %d, replicas %d)", w.c_str(), x.first, x.second.c_str(), g_d.num_server, g_d.alphabet_size, g_d.dart_tree_height, g_d.replication_factor)); return; }
                g_in.erase(g_in.begin() + i);
                break;
            }
    }
    else if (k == "query") {
        dart_op_type_t op = (dart_op_type_t)o->a[0];
        auto v = route(w.c_str(), op);
        for (auto &p : g_in) {
            if (!matches(p.key, w, op)) continue;
            CHECKED();
            probe(opname(op));
            bool ok = false;
            for (auto &x : v) for (auto &y : p.at) ok |= x.first == y.first;
            if (!ok) {
                std::string q, pl;
                for (auto &x : v) q += strf(" %u", x.first);
                for (auto &y : p.at) pl += strf(" %u", y.first);
                fail("query-misses", strf("%s query '%s' goes to servers%s, but '%s' is on%s (%u servers, alphabet %d, height %d, replicas %d, algorithm %d)", opname(op), w.c_str(), q.substr(0, 200).c_str(), p.key.c_str(), pl.substr(0, 200).c_str(), g_d.num_server, g_d.alphabet_size, g_d.dart_tree_height, g_d.replication_factor, g_algo));
                return;
            }
        }
    }
}
std::string word(Rng &r, int alpha, bool wide) {
    int n = 1 + (int)(r.chance(0.7) ? r.below(7) : r.below(24));
    std::string s;
    for (int i = 0; i < n; i++) {
        if (wide && r.chance(0.3)) s += (char)(128 + r.below(128));
        else if (r.chance(0.1)) s += (char)(33 + r.below(94));
        else s += (char)('a' + r.below(alpha));
    }
    for (char &c : s) if (c == '*' || c == '=') c = 'x';
    return s;
}
void gen(Rng &r, Plan &p, int) {
    CFG.quantum = 0;
    p.phases.resize(1);
    int phases = 1 + (int)r.below(2);
    for (int ph = 0; ph < phases; ph++) {
        AppOp &c = p.add(0, 0, COMP);
        sets(c.s1, "config");
        static const int AL[] = {2, 3, 5, 8, 16, 26, 27, 27, 27, 36, 52, 95, 128};
        while (true) {
            c.a[0] = r.chance(0.6) ? 1 + r.below(9) : 1 + r.below(120);
            c.a[1] = AL[r.below(13)];
            c.a[2] = r.chance(0.6) ? 0 : r.below(3);
            int h = (int)ceil(log((double)c.a[0]) / log((double)c.a[1])) + 1 + (int)c.a[2];
            if (pow((double)c.a[1], h) < 2e9) break;
        }
        c.a[3] = r.chance(0.5) ? 1 : 1 + r.below(std::min<i64>(c.a[1], 4));
        c.a[4] = 1 + r.below(16);
        c.a[5] = r.chance(0.8) ? 0 : 1 + r.below(2);
        bool wide = r.chance(0.15);
        int alpha = r.chance(0.5) ? 3 : 26;
        std::vector<std::string> ws;
        int n = 5 + (int)r.below(40);
        for (int i = 0; i < n; i++) {
            AppOp &o = p.add(0, 0, COMP);
            int k = (int)r.below(10);
            if (ws.empty() || k < 4) {
                sets(o.s1, "insert");
                std::string w = !ws.empty() && r.chance(0.15) ? ws[r.below(ws.size())] : word(r, alpha, wide);
                if (!ws.empty() && r.chance(0.3)) w = ws[r.below(ws.size())].substr(0, 1 + r.below(4)) + w;
                sets(o.s2, w);
                ws.push_back(w);
            }
            else if (k < 5) { sets(o.s1, "delete"); sets(o.s2, ws[r.below(ws.size())]); }
            else {
                sets(o.s1, "query");
                int op = 2 + (int)r.below(4);
                std::string w = ws[r.below(ws.size())], t = w;
                size_t l = 1 + r.below(w.size());
                if (op == OP_PREFIX_QUERY) t = w.substr(0, l);
                if (op == OP_SUFFIX_QUERY) t = w.substr(w.size() - l);
                if (op == OP_INFIX_QUERY) t = w.substr(r.below(w.size() - l + 1), l);
                if ((op == OP_PREFIX_QUERY || op == OP_INFIX_QUERY) && r.chance(0.05)) t = ""; // everything
                o.a[0] = op;
                sets(o.s2, t);
            }
        }
    }
}
void run(Rng &) { comp_run(nullptr, exec, nullptr, "index routing"); }
Reg_ r13({"P13", gen, nullptr, run, 1, nullptr});
}
