// P20: radix trees, one per simulated thread (they may share nothing), with failing allocations.
#include "comp.h"
#include <map>
#include <string.h>
extern "C" {
#include "art.h"
}
namespace {
using ull = unsigned long long;
struct Tree { art_tree t; bool live = false; std::map<std::string, u64> m; };
Tree g_t[4];
std::vector<std::string> g_keys;
int g_nul; // keys are passed with their terminating NUL counted (libart style) or not (as the index does)
std::string show(const std::string &k) { std::string s; for (unsigned char c : k) s += (c > 32 && c < 127) ? std::string(1, (char)c) : strf("\\x%02x", c); return s; }
int len(const std::string &k) { return (int)k.size() + g_nul; }
// the key is handed over in memory of its own that is changed afterwards: the tree must keep its own copy
struct Buf { std::vector<unsigned char> b; Buf(const std::string &k) : b(k.begin(), k.end()) { b.push_back(0); } const unsigned char *p() { return b.data(); } ~Buf() { memset(b.data(), 0xEE, b.size()); } };
void *val(u64 v) { return (void *)(uintptr_t)(v * 2 + 2); }
struct It { Tree *t; std::vector<std::string> got; u64 bad = 0; i64 stop; };
int cb(void *d, const unsigned char *k, uint32_t n, void *v) {
    It *i = (It *)d;
    std::string s((const char *)k, n);
    if (g_nul && n && s.back() == 0) s.pop_back();
    auto f = i->t->m.find(s);
    if (f == i->t->m.end() || val(f->second) != v) i->bad++;
    i->got.push_back(s);
    return i->stop > 0 && (i64)i->got.size() == i->stop ? 7 : 0;
}
void judge_iter(Tree &t, It &it, const std::string &pre, int ret, const char *what) {
    std::vector<std::string> want;
    for (auto &e : t.m) if (e.first.compare(0, pre.size(), pre) == 0) want.push_back(e.first);
    bool stopped = it.stop > 0 && (i64)want.size() >= it.stop;
    if (stopped) want.resize(it.stop);
    CHECKED();
    if (it.bad || it.got != want) {
        size_t i = 0;
        while (i < it.got.size() && i < want.size() && it.got[i] == want[i]) i++;
        fail("iteration", strf("%s '%s' visits %zu keys, expected %zu; first difference at %zu: %s instead of %s%s", what, show(pre).c_str(), it.got.size(), want.size(), i, i < it.got.size() ? show(it.got[i]).c_str() : "nothing", i < want.size() ? show(want[i]).c_str() : "nothing", it.bad ? " (a wrong value or unknown key was visited)" : ""));
    }
    else if (ret != (stopped ? 7 : 0)) fail("iteration", strf("%s returns %d although the callback %s", what, ret, stopped ? "stopped it with 7" : "never stopped it"));
}
void full(Tree &t) {
    It it{&t};
    it.stop = 0;
    int r = art_iter(&t.t, cb, &it);
    judge_iter(t, it, "", r, "iterating");
    CHECKED();
    if (!S.violated && art_size(&t.t) != t.m.size()) fail("size", strf("the size is %llu, %zu keys are in", (ull)art_size(&t.t), t.m.size()));
}
void find(Tree &t, const std::string &k) {
    auto f = t.m.find(k);
    Buf b(k);
    void *r = art_search(&t.t, b.p(), len(k)), *w = f == t.m.end() ? nullptr : val(f->second);
    CHECKED();
    if (r != w) fail("search", strf("searching '%s' returns %s, it %s", show(k).c_str(), r ? "a value" : "nothing", w ? (r ? "has another value" : "is in the tree") : "is not in the tree"));
}
void exec(AppOp *o) {
    Tree &t = g_t[o->a[0] & 3];
    if (!t.live) { art_tree_init(&t.t); t.live = true; t.m.clear(); }
    std::string op = o->s1, k = g_keys[o->a[1] % g_keys.size()];
    if (op == "insert" || op == "keep") {
        bool rep = op == "insert";
        u64 v = o->a[2];
        auto f = t.m.find(k);
        bool had = f != t.m.end();
        void *old = had ? val(f->second) : nullptr, *r;
        { Buf b(k); r = rep ? art_insert(&t.t, b.p(), len(k), val(v)) : art_insert_no_replace(&t.t, b.p(), len(k), val(v)); }
        CHECKED();
        if (!had && alloc_failed()) { // without memory: inserted or not, but the size and the rest of the tree agree
            probe("insert_without_memory");
            if (r) { fail("insert", "inserting a new key without memory returns an old value"); return; }
            if (art_size(&t.t) == t.m.size() + 1) t.m[k] = v;
        } else {
            if (r != old) { fail("insert", strf("inserting '%s' returns %s, the key was %s", show(k).c_str(), r ? "an old value" : "nothing", had ? "in" : "not in")); return; }
            if (!had || rep) t.m[k] = v;
        }
        find(t, k);
    }
    else if (op == "delete") {
        auto f = t.m.find(k);
        void *want = f == t.m.end() ? nullptr : val(f->second), *r;
        { Buf b(k); r = art_delete(&t.t, b.p(), len(k)); }
        CHECKED();
        if (alloc_failed()) probe("delete_without_memory");
        if (r != want) { fail("delete", strf("deleting '%s' returns %s, it %s", show(k).c_str(), r ? "a value" : "nothing", want ? "was in" : "was not in")); return; }
        if (want) t.m.erase(k);
        find(t, k);
    }
    else if (op == "search") find(t, k);
    else if (op == "iter") {
        It it{&t};
        it.stop = o->a[2];
        judge_iter(t, it, "", art_iter(&t.t, cb, &it), "iterating");
    }
    else if (op == "prefix") {
        std::string pre = k.substr(0, o->a[2] % (k.size() + 1));
        if (o->a[4]) pre += (char)o->a[4];
        It it{&t};
        it.stop = o->a[3];
        Buf b(pre);
        judge_iter(t, it, pre, art_iter_prefix(&t.t, b.p(), (int)pre.size(), cb, &it), "iterating prefix");
    }
    else if (op == "ends") {
        art_leaf *a = art_minimum(&t.t), *z = art_maximum(&t.t);
        CHECKED();
        auto is = [&](art_leaf *l, const std::string &k) { return l && (int)l->key_len == len(k) && !memcmp(l->key, k.data(), k.size()); };
        if (t.m.empty() ? a || z : !is(a, t.m.begin()->first) || !is(z, t.m.rbegin()->first)) fail("ends", strf("the least or greatest key of %zu is wrong", t.m.size()));
    }
    else if (op == "all") for (auto &x : g_keys) { if (S.violated) break; find(t, x); }
    else if (op == "destroy") { art_tree_destroy(&t.t); t.live = false; t.m.clear(); return; }
    if (!S.violated) full(t);
    S.mix(t.m.size());
}
void build_keys() {
    // the key universe is fixed by the plan's notes: shared prefixes of many lengths, few or all byte values
    g_keys.clear();
    auto num = [](const char *n) { return PLAN->note.count(n) ? strtoull(PLAN->note[n].c_str(), 0, 10) : 0; };
    u64 seed = num("seed"), n = num("keys"), style = num("style");
    g_nul = (int)num("nul");
    if (!n) n = 1;
    for (u64 i = 0; i < n; i++) {
        u64 x = h64(seed, i);
        std::string s;
        if (style == 0) { // two letters, any length
            u64 l = x % 9;
            for (u64 j = 0; j < l; j++) s += (x >> (8 + j) & 1) ? 'a' : 'b';
        } else if (style == 1) { // a long shared path, split anywhere
            u64 l = x % 40, cut = (x >> 8) % 40;
            for (u64 j = 0; j < l; j++) s += (char)('a' + (h64(seed, 1000 + j) % 3));
            if (cut < l) s[cut] = (char)('p' + (x >> 16) % 3);
            if ((x >> 24) % 3 == 0) s += (char)(1 + (x >> 32) % 255);
        } else if (style == 2) { // one byte decides: wide nodes
            static const int pl[] = {0, 1, 9, 10, 11, 25};
            s = std::string(pl[h64(seed, 5) % 6], 'k');
            s += (char)(1 + i % 255);
            if (x % 4 == 0) s += (char)(1 + (x >> 8) % 255);
            if (x % 16 == 1) s += "tail" + std::to_string((x >> 16) % 4);
        } else { // mixed
            u64 l = x % 30, y = x;
            for (u64 j = 0; j < l; j++) { y = h64(y, j); s += (y % 5 < 3 || !s.size()) ? (char)('a' + y % 2) : (char)(1 + (y >> 8) % 255); }
        }
        g_keys.push_back(s);
    }
}
void gen(Rng &r, Plan &p, int) {
    CFG.max_steps = 60000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    int users = r.chance(0.6) ? 1 : 2 + (int)r.below(2);
    u64 style = r.below(4), keys = style == 2 ? 20 + r.below(300) : 3 + r.below(r.chance(0.5) ? 12 : 80);
    p.note["seed"] = std::to_string(r.below(1u << 30));
    p.note["keys"] = std::to_string(keys);
    p.note["style"] = std::to_string(style);
    p.note["nul"] = std::to_string(r.below(2));
    double pf = r.chance(0.3) ? 0.15 : 0;
    for (int u = 0; u < users; u++) {
        int n = 10 + (int)r.below(style == 2 ? 500 : 120) / users;
        u64 mode = 0, at = 0;
        for (int i = 0; i < n; i++) {
            AppOp &o = p.add(0, u, COMP);
            o.a[0] = u;
            if (i % 40 == 0) mode = r.below(4); // mostly growing, mostly shrinking, or mixed, to cross the node sizes
            u64 k = r.below(20);
            o.a[1] = r.chance(0.5) ? r.below(keys) : at++ % keys;
            if (k < 12) {
                bool ins = mode == 0 ? k < 10 : mode == 1 ? k < 3 : k < 7;
                sets(o.s1, ins ? (r.chance(0.8) ? "insert" : "keep") : "delete");
                o.a[2] = r.below(1000000);
                if (r.chance(pf)) o.a[39] = 1 + r.below(3);
            }
            else if (k < 14) sets(o.s1, "search");
            else if (k < 15) { sets(o.s1, "iter"); o.a[2] = r.chance(0.5) ? 1 + r.below(keys) : 0; }
            else if (k < 18) { sets(o.s1, "prefix"); o.a[2] = r.below(50); o.a[3] = r.chance(0.2) ? 1 + r.below(keys) : 0; o.a[4] = r.chance(0.2) ? 1 + r.below(255) : 0; }
            else if (k < 19) sets(o.s1, "ends");
            else if (r.chance(0.2)) sets(o.s1, r.chance(0.3) ? "destroy" : "all");
            else sets(o.s1, "search");
        }
    }
}
void run(Rng &) {
    for (auto &t : g_t) t.live = false;
    build_keys();
    comp_run(nullptr, exec, [] {
        for (auto &t : g_t)
            if (t.live && !S.violated) {
                for (auto &x : g_keys) if (!S.violated) find(t, x);
                art_tree_destroy(&t.t);
                t.live = false;
            }
    }, "radix trees");
}
Reg_ r20({"P20", gen, nullptr, run, 1, nullptr});
}
