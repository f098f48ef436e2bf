// P19: the counting filter and the scaling filter, with failing allocations; the heap's fill byte changes per run.
#include "comp.h"
#include <algorithm>
#include <map>
#include <math.h>
extern "C" {
#include "pdc_dablooms.h"
}
namespace {
struct Key { std::string s; u64 id; };
std::vector<Key> g_in; // a multiset of the keys that are in
counting_bloom_t *g_c;
scaling_bloom_t *g_s;
u64 g_id, g_cap;
double g_err;
u64 g_peak; // most keys ever in the filter at once
using ull = unsigned long long;
bool has(const std::string &k) { return (g_c ? counting_bloom_check(g_c, k.data(), k.size()) : scaling_bloom_check(g_s, k.data(), k.size())) != 0; }
void all_present(const char *when) {
    CHECKED();
    for (auto &k : g_in)
        if (!has(k.s)) { fail("forgotten", strf("%s: a key that is in the %s filter is reported absent (%zu keys are in, capacity %llu)", when, g_c ? "counting" : "scaling", g_in.size(), (ull)g_cap)); return; }
}
std::string keyof(u64 n, int len) {
    std::string s;
    u64 x = h64(n, 77, CFG.fill);
    for (int i = 0; i < len; i++) { s += (char)(x >> (i % 8 * 8)); if (i % 8 == 7) x = h64(x, n, i); }
    return s + std::to_string(n);
}
void exec(AppOp *o) {
    std::string k = o->s1;
    if (k == "new") {
        if (g_c) free_counting_bloom(g_c);
        if (g_s) free_scaling_bloom(g_s);
        g_c = nullptr; g_s = nullptr;
        g_in.clear();
        g_id = 0; g_peak = 0;
        g_cap = o->a[1];
        g_err = o->a[2] / 10000.0;
        if (o->a[0]) g_c = new_counting_bloom(g_cap, g_err);
        else g_s = new_scaling_bloom(g_cap, g_err);
        CHECKED();
        if (!g_c && !g_s) { if (!alloc_failed()) fail("create", "a filter cannot be created although memory was available"); probe("create_without_memory"); }
        return;
    }
    if (!g_c && !g_s) return;
    if (k == "add")
        for (i64 i = 0; i < o->a[1] && !S.violated; i++) {
            Key x;
            // the same key may be added many times
            u64 n = o->a[3] ? choose(o->a[3], "key") : g_id * 1000 + 500 + o->id;
            x.s = keyof(n, (int)o->a[2]);
            x.id = g_id++;
            u64 f0 = S.cur->fail_fired;
            int r = g_c ? counting_bloom_add(g_c, x.s.data(), x.s.size()) : scaling_bloom_add(g_s, x.s.data(), x.s.size(), x.id);
            CHECKED();
            bool failed = (u64)S.cur->fail_fired > f0;
            if (failed) probe("add_without_memory");
            if (g_c ? r != 0 : r != 1) { if (!failed) { fail("add", strf("adding a key returns %d", r)); return; } }
            else g_in.push_back(x);
            if (g_in.size() > g_peak) g_peak = g_in.size();
            if (failed) all_present("after an addition without memory");
            else if (!has(x.s)) { fail("forgotten", strf("a key is reported absent right after it was added (%zu keys are in, capacity %llu)", g_in.size(), (ull)g_cap)); return; }
        }
    else if (k == "remove")
        for (i64 i = 0; i < o->a[1] && !S.violated && !g_in.empty(); i++) {
            size_t j = o->a[2] == 0 ? 0 : o->a[2] == 1 ? g_in.size() - 1 : choose(g_in.size(), "victim");
            Key x = g_in[j];
            g_in.erase(g_in.begin() + j);
            int r = g_c ? counting_bloom_remove(g_c, x.s.data(), x.s.size()) : scaling_bloom_remove(g_s, x.s.data(), x.s.size(), x.id);
            CHECKED();
            if (g_c ? r != 0 : r != 1) { fail("remove", strf("removing a key that is in returns %d", r)); return; }
        }
    else if (k == "absent") { // keys never added: within the configured rate, with a wide margin for chance
        u64 n = 1500, hit = 0;
        for (u64 i = 0; i < n; i++) hit += has("never" + keyof(i + 1000000007, 9));
        u64 fill = g_c ? g_in.size() : 0;
        CHECKED();
        S.mix(hit);
        bool distinct = !PLAN->note.count("repeat");
        if ((g_c ? g_peak <= g_cap : true) && distinct) {
            // the filter derives all its indices from two hash values: with few counters per function whole patterns coincide
            double nf = ceil(log(1 / g_err) / log(2)), cpf = ceil(g_cap * log(1 / g_err) / (nf * log(2) * log(2))), filters = g_c ? 1 : g_id / (double)g_cap + 2;
            double mean = n * (g_err + filters * 3 * g_cap / (cpf * cpf)), lim = mean * 2.5 + 6 * sqrt(mean + 1) + 12;
            if (hit > lim) fail("false-positives", strf("%llu of %llu keys never added are reported present, the configured rate is %g (%llu keys are in)", (ull)hit, (ull)n, g_err, (ull)fill));
            else probe("rate_judged");
        }
    }
    if (!S.violated) all_present(k.c_str());
    S.mix(g_in.size());
}
void gen(Rng &r, Plan &p, int) {
    CFG.max_steps = 40000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    bool repeat = r.chance(0.4);
    if (repeat) p.note["repeat"] = "1";
    double pf = r.chance(0.4) ? 0.2 : 0;
    auto mk = [&] {
        AppOp &o = p.add(0, 0, COMP);
        sets(o.s1, "new");
        o.a[0] = r.chance(0.5);
        o.a[1] = r.chance(0.3) ? 3 + r.below(20) : 50 + r.below(300);
        static const int e[] = {100, 500, 1000, 2500, 10};
        o.a[2] = e[r.below(5)];
        if (r.chance(pf)) o.a[39] = 1 + r.below(6);
    };
    mk();
    u64 keys = repeat ? 1 + r.below(12) : 0;
    int len = (int)r.below(30), n = 3 + (int)r.below(16);
    for (int i = 0; i < n; i++) {
        if (r.chance(0.04)) { mk(); continue; }
        AppOp &o = p.add(0, 0, COMP);
        int k = (int)r.below(10);
        if (k < 5) { sets(o.s1, "add"); o.a[1] = r.chance(0.4) ? 1 + r.below(20) : 1 + r.below(150); o.a[2] = len; o.a[3] = keys; if (r.chance(pf)) o.a[39] = 1 + r.below(5); }
        else if (k < 8) { sets(o.s1, "remove"); o.a[1] = r.chance(0.5) ? 1 + r.below(30) : 1 + r.below(150); o.a[2] = r.below(3); }
        else sets(o.s1, "absent");
    }
}
void run(Rng &) {
    comp_run(nullptr, exec, [] {
        if (S.violated) return;
        all_present("at the end");
        if (g_c) free_counting_bloom(g_c);
        if (g_s) free_scaling_bloom(g_s);
    }, "filters");
}
Reg_ r19({"P19", gen, nullptr, run, 1, nullptr});
}
