// P18: the hash tables and the set; P21: vector, deque and stack. Histories of operations with failing allocations,
// compared step by step with the maps, sets and sequences of the C++ library.
#include "comp.h"
#include <algorithm>
#include <deque>
#include <map>
extern "C" {
void *sim_malloc(size_t);
void sim_free(void *);
// the two chained hash tables have the same interface under two names
struct HPair { void *key, *value; };
struct HIter { void *t, *next; unsigned chain; };
#define TABLE(P) \
    void *P##hash_table_new(unsigned (*)(void *), int (*)(void *, void *)); \
    void P##hash_table_free(void *); \
    void P##hash_table_register_free_functions(void *, void (*)(void *), void (*)(void *)); \
    int P##hash_table_insert(void *, void *, void *); \
    void *P##hash_table_lookup(void *, void *); \
    int P##hash_table_remove(void *, void *); \
    unsigned P##hash_table_num_entries(void *); \
    void P##hash_table_iterate(void *, HIter *); \
    int P##hash_table_iter_has_more(HIter *); \
    HPair P##hash_table_iter_next(HIter *);
TABLE()
TABLE(srv_)
#include "pdc_set.h"
#include "pdc_vector.h"
#include "pdc_deque.h"
#include "pdc_stack.h"
void stack_init(PDC_stack_t *);
void stack_push(PDC_stack_t *, void *);
void *stack_pop(PDC_stack_t *);
void stack_free(PDC_stack_t *);
#define KEYFN(T) unsigned pdc_default_##T##_hash_func(void *); int pdc_default_##T##_equal_func(void *, void *);
KEYFN(string) KEYFN(integer) KEYFN(long) KEYFN(uint64) KEYFN(double)
#include "pdc_hash.h"
#include "pdc_compare.h"
struct htab;
struct htab *htab_create(size_t, unsigned (*)(const void *), int (*)(const void *, const void *), void (*)(void *));
void htab_delete(struct htab *);
void htab_empty(struct htab *);
void *htab_find(struct htab *, const void *);
void **htab_find_slot(struct htab *, const void *, int insert);
void htab_clear_slot(struct htab *, void **);
void htab_remove_elt(struct htab *, void *);
void htab_traverse(struct htab *, int (*)(void **, void *), void *);
size_t htab_elements(struct htab *);
}
namespace {
// ---- P18
struct Box { u64 k; bool freed = false; bool owned = false; };
std::vector<Box *> g_boxes;
u64 g_spread, g_mult;
Box *box(u64 k) { Box *b = new Box; b->k = k; g_boxes.push_back(b); return b; }
unsigned hf(void *p) { return (unsigned)((((Box *)p)->k % g_spread) * g_mult); }
int eq(void *a, void *b) { return ((Box *)a)->k == ((Box *)b)->k; }
void ff(void *p) {
    Box *b = (Box *)p;
    if (b->freed) fail("freed-twice", strf("an entry (key %llu) is released twice", (unsigned long long)b->k));
    if (!b->owned) fail("freed-foreign", strf("an entry (key %llu) that was not taken over is released", (unsigned long long)b->k));
    b->freed = true;
}
unsigned chf(const void *p) { return hf((void *)p); }
int ceq(const void *a, const void *b) { return eq((void *)a, (void *)b); }
struct Iface {
    const char *name;
    void *(*make)(unsigned (*)(void *), int (*)(void *, void *));
    void (*del)(void *);
    void (*reg)(void *, void (*)(void *), void (*)(void *));
    int (*ins)(void *, void *, void *);
    void *(*look)(void *, void *);
    int (*rem)(void *, void *);
    unsigned (*num)(void *);
    void (*iter)(void *, HIter *);
    int (*more)(HIter *);
    HPair (*next)(HIter *);
};
#define IF(P, N) {N, P##hash_table_new, P##hash_table_free, P##hash_table_register_free_functions, P##hash_table_insert, P##hash_table_lookup, P##hash_table_remove, P##hash_table_num_entries, P##hash_table_iterate, P##hash_table_iter_has_more, P##hash_table_iter_next}
const Iface IFS[2] = {IF(, "hash table"), IF(srv_, "server hash table")};
struct Tab { // one collection under test
    int kind = -1; // 0/1 hash tables, 2 set, 3 open-addressing table
    void *h = nullptr;
    bool fre = false;
    std::map<u64, std::pair<Box *, Box *>> m;
};
Tab g_t[4];
using ull = unsigned long long;
void gone(Tab &t, std::pair<Box *, Box *> e, const char *what) {
    if (!t.fre || S.violated) return;
    if (!e.first->freed) fail("not-released", strf("%s: the key of an entry that left the collection is not released", what));
    if (t.kind < 2 && !e.second->freed) fail("not-released", strf("%s: the value of an entry that left the collection is not released", what));
}
void same(Tab &t, u64 k, const char *when) {
    CHECKED();
    Box q; q.k = k;
    auto it = t.m.find(k);
    if (t.kind < 2) {
        void *v = IFS[t.kind].look(t.h, &q);
        if (it == t.m.end() ? v != nullptr : v != it->second.second) fail("lookup", strf("%s, %s: lookup of %llu gives %s, the collection has %s", IFS[t.kind].name, when, (ull)k, v ? "an entry" : "nothing", it == t.m.end() ? "no such entry" : "another value"));
    }
    else if (t.kind == 2) {
        int v = set_query((Set *)t.h, &q);
        if ((v != 0) != (it != t.m.end())) fail("lookup", strf("set, %s: query of %llu says %d", when, (ull)k, v));
    }
    else {
        void *v = htab_find((struct htab *)t.h, &q);
        if (it == t.m.end() ? v != nullptr : v != it->second.first) fail("lookup", strf("open-addressing table, %s: find of %llu gives %p", when, (ull)k, v));
    }
}
void count(Tab &t, const char *when) {
    CHECKED();
    size_t n = t.kind < 2 ? IFS[t.kind].num(t.h) : t.kind == 2 ? set_num_entries((Set *)t.h) : htab_elements((struct htab *)t.h);
    S.mix(n);
    if (n != t.m.size()) fail("count", strf("%s: the collection counts %zu entries, it holds %zu", when, n, t.m.size()));
}
void seen_all(Tab &t, std::map<u64, int> &seen, const char *what) {
    CHECKED();
    for (auto &e : seen) if (e.second > 1) { fail("iterated-twice", strf("%s returns the entry %llu %d times", what, (ull)e.first, e.second)); return; }
    for (auto &e : t.m) if (!seen.count(e.first)) { fail("not-iterated", strf("%s leaves out the entry %llu", what, (ull)e.first)); return; }
    if (seen.size() != t.m.size()) fail("iterated-extra", strf("%s returns an entry that is not in the collection", what));
}
struct Tr { std::map<u64, int> *seen; Tab *t; u64 rem; int stop; };
int trav(void **slot, void *info) {
    Tr *x = (Tr *)info;
    u64 k = ((Box *)*slot)->k;
    (*x->seen)[k]++;
    if (x->rem && k % x->rem == 0) {
        auto e = x->t->m[k];
        htab_clear_slot((struct htab *)x->t->h, slot);
        x->t->m.erase(k);
        x->seen->erase(k);
        gone(*x->t, e, "htab_clear_slot");
    }
    return 1;
}
void iterate(Tab &t, u64 rem) { // rem: remove the entries whose key is a multiple of it as they are returned
    std::map<u64, int> seen;
    if (t.kind < 2) {
        HIter it;
        const Iface &f = IFS[t.kind];
        f.iter(t.h, &it);
        for (size_t guard = 0; f.more(&it); guard++) {
            HPair p = f.next(&it);
            if (!p.key || guard > 200000) { fail("iterated-extra", "the iteration returns no key although it says there is one, or never ends"); return; }
            u64 k = ((Box *)p.key)->k;
            if (!t.m.count(k) || t.m[k].first != p.key || t.m[k].second != p.value) { fail("iterated-extra", strf("%s: the iteration returns an entry (key %llu) that is not in the table", f.name, (ull)k)); return; }
            if (rem && k % rem == 0) {
                auto e = t.m[k];
                Box q; q.k = k;
                if (!f.rem(t.h, &q)) { fail("remove", strf("%s: removing the entry %llu returned by the iteration says it is absent", f.name, (ull)k)); return; }
                t.m.erase(k);
                gone(t, e, "remove");
            }
            else seen[k]++;
        }
        seen_all(t, seen, f.name);
    }
    else if (t.kind == 2) {
        SetIterator it;
        set_iterate((Set *)t.h, &it);
        for (size_t guard = 0; set_iter_has_more(&it); guard++) {
            Box *b = (Box *)set_iter_next(&it);
            if (!b || guard > 200000) { fail("iterated-extra", "the set's iteration returns no value although it says there is one, or never ends"); return; }
            if (!t.m.count(b->k) || t.m[b->k].first != b) { fail("iterated-extra", "the set's iteration returns a value that is not in the set"); return; }
            u64 k = b->k;
            if (rem && k % rem == 0) {
                auto e = t.m[k];
                Box q; q.k = k;
                if (!set_remove((Set *)t.h, &q)) { fail("remove", "removing the value returned by the set's iteration says it is absent"); return; }
                t.m.erase(k);
                gone(t, e, "set_remove");
            }
            else seen[k]++;
        }
        seen_all(t, seen, "set iteration");
        SetValue *a = set_to_array((Set *)t.h);
        if (a) {
            seen.clear();
            for (size_t i = 0; i < t.m.size(); i++) seen[((Box *)a[i])->k]++;
            seen_all(t, seen, "set_to_array");
            sim_free(a);
        }
        else if (!alloc_failed()) fail("array", "set_to_array returns NULL although memory was available");
    }
    else {
        Tr x = {&seen, &t, rem, 0};
        htab_traverse((struct htab *)t.h, trav, &x);
        seen_all(t, seen, "htab_traverse");
    }
}
void insert(Tab &t, u64 k) {
    Box *kb = box(k), *vb = t.kind < 2 ? box(k) : nullptr;
    kb->owned = true;
    if (vb) vb->owned = true;
    u64 f0 = S.cur->fail_fired;
    bool had = t.m.count(k);
    auto old = had ? t.m[k] : std::make_pair((Box *)0, (Box *)0);
    bool ok;
    if (t.kind < 2) ok = IFS[t.kind].ins(t.h, kb, vb) != 0;
    else if (t.kind == 2) ok = set_insert((Set *)t.h, kb) != 0;
    else {
        void **s = htab_find_slot((struct htab *)t.h, kb, 1);
        ok = s != nullptr;
        if (ok) {
            if ((*s != nullptr) != had) { fail("slot", strf("htab_find_slot for %llu returns %s slot", (ull)k, had ? "an empty" : "an occupied")); return; }
            if (!had) *s = kb;
        }
    }
    bool failed = (u64)S.cur->fail_fired > f0;
    CHECKED();
    if (failed) probe("insert_without_memory");
    if (!ok && !failed && !(t.kind == 2 && had)) { fail("insert", strf("inserting %llu is refused although memory was available", (ull)k)); return; }
    if (ok && t.kind == 2 && had) { fail("insert", strf("the set takes the value %llu a second time", (ull)k)); return; }
    if (ok && !(t.kind == 3 && had)) {
        t.m[k] = {kb, vb};
        if (had) gone(t, old, "overwriting insert");
    }
    else kb->owned = false;
    same(t, k, "after insert");
    count(t, "after insert");
}
void removek(Tab &t, u64 k) {
    Box q; q.k = k;
    bool had = t.m.count(k);
    auto old = had ? t.m[k] : std::make_pair((Box *)0, (Box *)0);
    int r = had;
    if (t.kind < 2) r = IFS[t.kind].rem(t.h, &q);
    else if (t.kind == 2) r = set_remove((Set *)t.h, &q);
    else htab_remove_elt((struct htab *)t.h, &q);
    CHECKED();
    if ((r != 0) != had) fail("remove", strf("removing %llu says %d, the entry was %s", (ull)k, r, had ? "present" : "absent"));
    if (had) { t.m.erase(k); gone(t, old, "remove"); }
    same(t, k, "after remove");
    count(t, "after remove");
}
void check_all(Tab &t, u64 range) {
    count(t, "full check");
    std::vector<u64> ks;
    for (auto &e : t.m) ks.push_back(e.first);
    for (u64 k = 0; k < range && k < 300; k++) ks.push_back(k);
    for (u64 k : ks) { if (S.violated) return; same(t, k, "full check"); }
}
void drop(Tab &t) {
    if (!t.h) return;
    if (t.kind < 2) IFS[t.kind].del(t.h);
    else if (t.kind == 2) set_free((Set *)t.h);
    else htab_delete((struct htab *)t.h);
    for (auto &e : t.m) gone(t, e.second, "freeing the collection");
    t = Tab();
}
void make(Tab &t, int kind, bool fre, int size) {
    drop(t);
    t.kind = kind;
    t.fre = fre;
    if (kind < 2) { t.h = IFS[kind].make(hf, eq); if (t.h && fre) IFS[kind].reg(t.h, ff, ff); }
    else if (kind == 2) { t.h = set_new(hf, eq); if (t.h && fre) set_register_free_function((Set *)t.h, ff); }
    else t.h = htab_create(size, chf, ceq, fre ? ff : nullptr);
    if (!t.h && !alloc_failed()) fail("create", "a collection cannot be created although memory was available");
    if (t.h) count(t, "after creation");
}
// tables and sets keyed with the library's own hash, equality and comparison functions
struct KeyFns { const char *name; unsigned (*hash)(void *); int (*eq)(void *, void *); int (*cmp)(void *, void *); int kind; }; // kind 0 int, 1 64 bits, 2 double, 3 string, 4 string without case, 5 address
const KeyFns KF[] = {{"default integer", pdc_default_integer_hash_func, pdc_default_integer_equal_func, nullptr, 0}, {"default long", pdc_default_long_hash_func, pdc_default_long_equal_func, nullptr, 1},
    {"default uint64", pdc_default_uint64_hash_func, pdc_default_uint64_equal_func, nullptr, 1}, {"default double", pdc_default_double_hash_func, pdc_default_double_equal_func, nullptr, 2},
    {"default string", pdc_default_string_hash_func, pdc_default_string_equal_func, nullptr, 3}, {"int", int_hash, int_equal, int_compare, 0}, {"ui64", ui64_hash, ui64_equal, ui64_compare, 1},
    {"string", string_hash, string_equal, string_compare, 3}, {"nocase string", string_nocase_hash, string_nocase_equal, string_nocase_compare, 4}, {"pointer", pointer_hash, pointer_equal, pointer_compare, 5}};
void typed(AppOp *o) {
    const KeyFns &f = KF[o->a[1] % 10];
    Rng r; r.seed((u64)o->a[3]);
    bool set = o->a[4] == 2;
    const Iface &ifs = IFS[o->a[4] % 2];
    std::vector<std::vector<char>> mem; // the bytes of each key, with other bytes around them
    mem.reserve(4 * o->a[2] + 8);
    static char addr[4096];
    auto place = [&](const std::string &b) -> void * {
        if (f.kind == 5) return addr + *(unsigned short *)b.data() % 4096;
        mem.emplace_back(b.size() + 24);
        for (char &c : mem.back()) c = (char)r.below(256);
        memcpy(&mem.back()[8], b.data(), b.size());
        return &mem.back()[8];
    };
    auto draw = [&]() -> std::string {
        std::string b;
        switch (f.kind) {
        case 0: { int v = r.chance(0.5) ? (int)r.below(200) - 100 : (int)r.next(); b.assign((char *)&v, sizeof v); break; }
        case 1: { u64 v = r.chance(0.5) ? r.below(100) << (r.chance(0.5) ? 32 : 0) : r.next(); b.assign((char *)&v, sizeof v); break; }
        case 2: { double v = r.chance(0.5) ? ((int)r.below(200) - 100) / 4.0 : ((int)r.below(2000000) - 1000000) * 1024.5; if (v == 0) v = 0; b.assign((char *)&v, sizeof v); break; }
        case 5: { unsigned short v = (unsigned short)r.below(4096); b.assign((char *)&v, sizeof v); break; }
        default: { int n = (int)r.below(r.chance(0.7) ? 4 : 40); for (int i = 0; i < n; i++) b += r.chance(0.7) ? (char)((r.chance(0.5) ? 'a' : 'A') + r.below(3)) : (char)(1 + r.below(127)); b += '\0'; }
        }
        return b;
    };
    auto norm = [&](std::string b) { if (f.kind == 4) for (char &c : b) if (c >= 'A' && c <= 'Z') c += 32; return b; };
    auto lessk = [&](const std::string &a, const std::string &b) {
        switch (f.kind) {
        case 0: return *(int *)a.data() < *(int *)b.data();
        case 1: return *(u64 *)a.data() < *(u64 *)b.data();
        case 2: return *(double *)a.data() < *(double *)b.data();
        case 5: return *(unsigned short *)a.data() < *(unsigned short *)b.data();
        default: return strcmp(norm(a).c_str(), norm(b).c_str()) < 0;
        }
    };
    std::map<std::string, std::pair<void *, void *>> m;
    void *h = set ? (void *)set_new(f.hash, f.eq) : ifs.make(f.hash, f.eq);
    if (!h) return;
    std::vector<std::string> ks;
    auto look = [&](const std::string &k) {
        CHECKED();
        auto it = m.find(norm(k));
        void *q = place(k);
        bool has = set ? set_query((Set *)h, q) != 0 : ifs.look(h, q) != nullptr;
        bool right = set ? has == (it != m.end()) : ifs.look(h, q) == (it == m.end() ? nullptr : it->second.second);
        if (!right) fail("typed-lookup", strf("%s with the %s functions: a key is %s, it was %s", set ? "set" : ifs.name, f.name, has ? "found (or another value)" : "not found", it == m.end() ? "not put in" : "put in"));
    };
    for (i64 i = 0; i < o->a[2] && !S.violated; i++) {
        std::string k = draw();
        ks.push_back(k);
        void *p = place(k), *v = box(1);
        if (!(set ? set_insert((Set *)h, p) : ifs.ins(h, p, v))) { if (set && m.count(norm(k))) continue; if (!alloc_failed()) fail("typed-insert", strf("%s with the %s functions refuses a key", set ? "set" : ifs.name, f.name)); continue; }
        m[norm(k)] = {p, v};
    }
    for (auto &k : ks) { if (S.violated) break; look(k); look(draw()); }
    for (size_t i = 0; i + 1 < ks.size() && !S.violated; i += 2) {
        void *q = place(ks[i]);
        bool had = m.erase(norm(ks[i])), did = set ? set_remove((Set *)h, q) : ifs.rem(h, q);
        CHECKED();
        if (had != did) fail("typed-remove", strf("%s with the %s functions: removing says %d for a key that was %s", set ? "set" : ifs.name, f.name, did, had ? "in" : "not in"));
    }
    for (auto &k : ks) { if (S.violated) break; look(k); }
    CHECKED();
    size_t n = set ? set_num_entries((Set *)h) : ifs.num(h);
    if (!S.violated && n != m.size()) fail("typed-count", strf("%s with the %s functions counts %zu keys, it holds %zu", set ? "set" : ifs.name, f.name, n, m.size()));
    if (f.cmp) for (size_t i = 0; i < ks.size() && i < 60 && !S.violated; i++) {
        const std::string &a = ks[r.below(ks.size())], &b = ks[r.below(ks.size())];
        int c = f.cmp(place(a), place(b)), w = lessk(a, b) ? -1 : lessk(b, a) ? 1 : 0;
        CHECKED();
        if ((c < 0) != (w < 0) || (c > 0) != (w > 0)) fail("typed-compare", strf("%s comparison gives %d for keys that compare %d", f.name, c, w));
    }
    if (set) set_free((Set *)h); else ifs.del(h);
}
void exec18(AppOp *o) {
    std::string k = o->s1;
    if (k == "typed") { typed(o); return; }
    Tab &t = g_t[o->a[0]];
    if (k == "config") { g_spread = o->a[1]; g_mult = o->a[2]; return; }
    if (k == "new") { make(t, (int)o->a[1], o->a[2], (int)o->a[3]); return; }
    if (!t.h) return;
    if (k == "insert") for (i64 i = 0; i < o->a[2] && !S.violated; i++) insert(t, (u64)(o->a[1] + i * o->a[3]) % 100000);
    else if (k == "remove") for (i64 i = 0; i < o->a[2] && !S.violated; i++) removek(t, (u64)(o->a[1] + i * o->a[3]) % 100000);
    else if (k == "iterate") iterate(t, 0);
    else if (k == "iterate_remove") { iterate(t, (u64)o->a[1]); if (!S.violated) count(t, "after iteration with removal"); }
    else if (k == "empty") {
        if (t.kind != 3) return;
        htab_empty((struct htab *)t.h);
        auto m = t.m;
        t.m.clear();
        for (auto &e : m) gone(t, e.second, "htab_empty");
        count(t, "after htab_empty");
    }
    else if (k == "union" || k == "intersection") {
        Tab &u = g_t[o->a[1]];
        if (t.kind != 2 || u.kind != 2 || !u.h) return;
        bool un = k == "union";
        Set *r = un ? set_union((Set *)t.h, (Set *)u.h) : set_intersection((Set *)t.h, (Set *)u.h);
        CHECKED();
        if (!r) { if (!alloc_failed()) fail("set-op", "set " + k + " fails although memory was available"); probe("set_op_without_memory"); }
        else {
            Tab x;
            x.kind = 2;
            x.h = r;
            for (auto &e : t.m) if (un || u.m.count(e.first)) x.m.insert(e);
            if (un) for (auto &e : u.m) x.m.insert(e); // values of the first set win
            iterate(x, 0);
            if (!S.violated) check_all(x, 0);
            set_free(r);
            x.h = nullptr;
        }
        if (!S.violated) check_all(u, 50);
    }
    if (!S.violated) check_all(t, o->a[5]);
}
void gen18(Rng &r, Plan &p, int) {
    CFG.max_steps = 30000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    AppOp &c = p.add(0, 0, COMP);
    sets(c.s1, "config");
    c.a[1] = r.chance(0.2) ? 1 : r.chance(0.3) ? 2 + r.below(10) : 100000;
    c.a[2] = r.chance(0.3) ? 193 : r.chance(0.5) ? 1 : 2654435761u;
    bool slow = c.a[1] < 12;
    u64 range = r.chance(0.5) ? 40 : 3000;
    int ntab = 1 + (int)r.below(4);
    int all = r.chance(0.35) ? 2 : -1;
    double pf = r.chance(0.6) ? 0.12 : 0;
    auto mk = [&](int i) {
        AppOp &o = p.add(0, 0, COMP);
        sets(o.s1, "new");
        o.a[0] = i; o.a[1] = all >= 0 ? all : r.below(4); o.a[2] = r.chance(0.6); o.a[3] = r.below(40);
        if (r.chance(pf)) o.a[39] = 1 + r.below(2);
    };
    for (int i = 0; i < ntab; i++) mk(i);
    int n = 4 + (int)r.below(30);
    for (int i = 0; i < n; i++) {
        int t = (int)r.below(ntab);
        if (r.chance(0.04)) { mk(t); continue; }
        AppOp &o = p.add(0, 0, COMP);
        o.a[0] = t;
        if (r.chance(0.05)) { sets(o.s1, "typed"); o.a[1] = r.below(10); o.a[2] = r.chance(0.6) ? 1 + r.below(30) : r.below(700); o.a[3] = r.below(1ull << 40); o.a[4] = r.below(3); if (r.chance(pf)) o.a[39] = 1 + r.below(40); continue; }
        o.a[5] = range;
        int k = (int)r.below(12);
        o.a[1] = r.below(range);
        o.a[2] = r.chance(0.6) ? 1 + r.below(4) : r.chance(slow ? 0.1 : 0.5) ? r.below(900) : r.below(120);
        o.a[3] = r.chance(0.5) ? 1 : r.below(7);
        if (k < 5) sets(o.s1, "insert");
        else if (k < 8) sets(o.s1, "remove");
        else if (k < 9) sets(o.s1, "iterate");
        else if (k < 10) { sets(o.s1, "iterate_remove"); o.a[1] = 1 + r.below(4); }
        else if (k < 11 && all != 2) sets(o.s1, r.chance(0.3) ? "empty" : "insert");
        else { sets(o.s1, r.chance(0.5) ? "union" : "intersection"); o.a[1] = r.below(ntab); }
        if (r.chance(pf)) o.a[39] = r.chance(0.4) ? -(i64)(64 << r.below(8)) : 1 + r.below(o.a[2] < 6 ? 4 : 150);
    }
}
void run18(Rng &) {
    comp_run(nullptr, exec18, [] { for (auto &t : g_t) if (!S.violated) drop(t); }, "collections");
}
// ---- P21
PDC_VECTOR *g_v[2];
std::vector<void *> g_vm[2];
PDC_deque_t g_d;
std::deque<void *> g_dm;
bool g_don, g_son;
PDC_stack_t g_s;
std::vector<void *> g_sm;
u64 g_item;
void *item() { void *p = sim_malloc(8); *(u64 *)p = ++g_item; return p; }
void check_vec(int i) {
    CHECKED();
    PDC_VECTOR *v = g_v[i];
    auto &m = g_vm[i];
    if (pdc_vector_size(v) != m.size()) { fail("vector-size", strf("the vector says it holds %zu items, %zu were added", pdc_vector_size(v), m.size())); return; }
    for (size_t j = 0; j < m.size(); j++) if (pdc_vector_get(v, j) != m[j]) { fail("vector-item", strf("item %zu of %zu of the vector is not the one added there", j, m.size())); return; }
    if (pdc_vector_get(v, m.size()) || pdc_vector_get(v, m.size() + 7)) fail("vector-item", "the vector returns an item beyond its size");
}
void exec21(AppOp *o) {
    std::string k = o->s1;
    int vi = (int)(o->a[0] & 1);
    if (k == "vnew") {
        if (g_v[vi]) { pdc_vector_destroy(g_v[vi]); g_vm[vi].clear(); }
        g_v[vi] = o->a[1] < 0 ? pdc_vector_new() : pdc_vector_create(o->a[1], o->a[2] / 100.0);
        if (!g_v[vi] && !alloc_failed()) fail("vector-create", "a vector cannot be created although memory was available");
        if (g_v[vi]) check_vec(vi);
    }
    else if (k == "vadd") {
        if (!g_v[vi]) return;
        for (i64 i = 0; i < o->a[1] && !S.violated; i++) {
            int nth = S.cur->fail_nth;
            S.cur->fail_nth = 0;
            void *it = item();
            S.cur->fail_nth = nth;
            u64 f0 = S.cur->fail_fired;
            pdc_vector_add(g_v[vi], it);
            if ((u64)S.cur->fail_fired > f0) { // the item may be missing; everything added before must be there
                probe("vector_without_memory");
                if (pdc_vector_size(g_v[vi]) == g_vm[vi].size()) { sim_free(it); check_vec(vi); continue; }
            }
            g_vm[vi].push_back(it);
        }
        if (!S.violated) check_vec(vi);
    }
    else if (k == "vfactor") {
        if (!g_v[vi]) return;
        pdc_vector_set_expansion_factor(g_v[vi], o->a[2] / 100.0);
        CHECKED();
        if (pdc_vector_get_expansion_factor(g_v[vi]) != o->a[2] / 100.0) fail("vector-factor", "the expansion factor set is not the one returned");
    }
    else if (k == "viter") {
        if (!g_v[vi]) return;
        PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(g_v[vi]);
        CHECKED();
        if (!it) { if (!alloc_failed()) fail("vector-iter", "no iterator although memory was available"); return; }
        size_t j = 0;
        for (; pdc_vector_iterator_has_next(it) && j <= g_vm[vi].size(); j++) {
            void *x = pdc_vector_iterator_next(it);
            if (j < g_vm[vi].size() && x != g_vm[vi][j]) { fail("vector-iter", strf("the iteration returns another item at position %zu", j)); break; }
        }
        if (!S.violated && j != g_vm[vi].size()) fail("vector-iter", strf("the iteration returns %zu items of %zu", j, g_vm[vi].size()));
        pdc_vector_iterator_destroy(it);
    }
    else if (k == "dreset") { if (g_don) PDC_deque_free(&g_d); PDC_deque_init(&g_d); g_don = true; g_dm.clear(); }
    else if (k == "sreset") { if (g_son) stack_free(&g_s); stack_init(&g_s); g_son = true; g_sm.clear(); }
    else if (k == "dpush" || k == "dpop") {
        for (i64 i = 0; i < o->a[1] && !S.violated; i++) {
            bool front = choose(100, "deque end") < (u64)o->a[2];
            if (k == "dpush") {
                void *x = (void *)(++g_item * 8);
                if (front) { PDC_deque_push_front(&g_d, x); g_dm.push_front(x); }
                else { PDC_deque_push_back(&g_d, x); g_dm.push_back(x); }
            }
            else {
                void *x = front ? PDC_deque_pop_front(&g_d) : PDC_deque_pop_back(&g_d), *want = nullptr;
                if (!g_dm.empty()) { want = front ? g_dm.front() : g_dm.back(); if (front) g_dm.pop_front(); else g_dm.pop_back(); }
                CHECKED();
                if (x != want) fail("deque-item", strf("popping the %s of the deque returns %p, the item there is %p (%zu left)", front ? "front" : "back", x, want, g_dm.size()));
                S.mix((u64)x);
            }
            CHECKED();
            if (!S.violated && g_d.size != g_dm.size()) fail("deque-size", strf("the deque says it holds %zu items, it has %zu", g_d.size, g_dm.size()));
        }
    }
    else if (k == "spush") for (i64 i = 0; i < o->a[1]; i++) { void *x = (void *)(++g_item * 8); stack_push(&g_s, x); g_sm.push_back(x); }
    else if (k == "spop")
        for (i64 i = 0; i < o->a[1] && !g_sm.empty() && !S.violated; i++) {
            void *x = stack_pop(&g_s);
            CHECKED();
            if (x != g_sm.back()) fail("stack-item", strf("popping the stack returns %p, the item on top is %p", x, g_sm.back()));
            g_sm.pop_back();
            S.mix((u64)x);
        }
}
void gen21(Rng &r, Plan &p, int) {
    CFG.max_steps = 8000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    for (const char *k : {"dreset", "sreset", "vnew"}) { AppOp &o = p.add(0, 0, COMP); sets(o.s1, k); o.a[1] = -1; }
    int focus = (int)r.below(4), front = (int)(r.chance(0.3) ? 0 : r.chance(0.4) ? 100 : 50), n = 5 + (int)r.below(40);
    for (int i = 0; i < n; i++) {
        AppOp &o = p.add(0, 0, COMP);
        int g = focus < 3 && r.chance(0.8) ? focus : (int)r.below(3);
        u64 many = r.chance(0.2) ? 1 + r.below(300) : r.chance(0.5) ? 1 + r.below(3) : 1 + r.below(40);
        o.a[1] = many;
        if (g == 0) {
            int k = (int)r.below(10);
            o.a[0] = r.below(2);
            o.a[2] = 101 + r.below(r.chance(0.3) ? 20 : 250);
            if (k < 2) { sets(o.s1, "vnew"); o.a[1] = r.chance(0.2) ? -1 : r.below(12); }
            else if (k < 7) sets(o.s1, "vadd");
            else if (k < 8) sets(o.s1, "vfactor");
            else sets(o.s1, "viter");
            if (r.chance(0.15)) o.a[39] = 1 + r.below(3);
        }
        else if (g == 1) { sets(o.s1, r.chance(0.03) ? "dreset" : r.chance(0.5) ? "dpush" : "dpop"); o.a[2] = r.chance(0.7) ? front : r.below(101); }
        else sets(o.s1, r.chance(0.03) ? "sreset" : r.chance(0.55) ? "spush" : "spop");
    }
}
void run21(Rng &) {
    comp_run(nullptr, exec21, [] {
        if (S.violated) return;
        AppOp o;
        memset(&o, 0, sizeof o);
        o.a[1] = 100000; o.a[2] = 50;
        sets(o.s1, "dpop");
        o.a[1] = (i64)g_dm.size() + 3;
        if (g_don) exec21(&o);
        sets(o.s1, "spop");
        o.a[1] = (i64)g_sm.size();
        if (g_son && !S.violated) exec21(&o);
        if (S.violated) return;
        if (g_don) PDC_deque_free(&g_d);
        if (g_son) stack_free(&g_s);
        for (auto *v : g_v) if (v) pdc_vector_destroy(v);
    }, "sequences");
}
Reg_ r18({"P18", gen18, nullptr, run18, 1, nullptr});
Reg_ r21({"P21", gen21, nullptr, run21, 1, nullptr});
}
