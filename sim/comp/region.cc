// P22: region arithmetic and block copies; simulated threads copy into neighbouring blocks of shared buffers,
// pre-empted inside the copies, so that touching a byte that is not theirs is seen whenever it happens.
#include "comp.h"
#include <string.h>
extern "C" {
int check_overlap(int ndim, uint64_t *offset1, uint64_t *size1, uint64_t *offset2, uint64_t *size2);
int PDC_region_overlap_detect(int ndim, uint64_t *offset1, uint64_t *size1, uint64_t *offset2, uint64_t *size2, uint64_t **oo, uint64_t **os);
int memcpy_subregion(int ndim, uint64_t unit, int access, char *buf, uint64_t *size, char *sub, uint64_t *sub_offset, uint64_t *sub_size);
int memcpy_overlap_subregion(int ndim, uint64_t unit, char *buf, uint64_t *o1, uint64_t *s1, char *buf2, uint64_t *o2, uint64_t *s2, uint64_t *oo, uint64_t *os);
int detect_region_contained(uint64_t *offset, uint64_t *size, uint64_t *offset2, uint64_t *size2, int ndim);
void *sim_malloc(size_t);
void sim_free(void *);
}
namespace {
using ull = unsigned long long;
struct Reg { u64 o[3] = {0, 0, 0}, s[3] = {1, 1, 1}; };
u64 cells(const Reg &r, int nd) { u64 n = 1; for (int d = 0; d < nd; d++) n *= r.s[d]; return n; }
std::string show(const Reg &r, int nd) { std::string t; for (int d = 0; d < nd; d++) t += strf("%s%llu+%llu", d ? "," : "", (ull)r.o[d], (ull)r.s[d]); return t; }
// intersection by definition
bool meet(const Reg &a, const Reg &b, int nd, Reg &m) {
    for (int d = 0; d < nd; d++) {
        u64 lo = std::max(a.o[d], b.o[d]), hi = std::min(a.o[d] + a.s[d], b.o[d] + b.s[d]);
        if (lo >= hi) return false;
        m.o[d] = lo;
        m.s[d] = hi - lo;
    }
    return true;
}
u64 idx(const Reg &r, int nd, const u64 *c) { u64 x = 0; for (int d = 0; d < nd; d++) x = x * r.s[d] + (c[d] - r.o[d]); return x; }
template <class F> void each(const Reg &m, int nd, F f) {
    u64 c[3] = {m.o[0], m.o[1], m.o[2]};
    for (u64 i = 0; i < cells(m, nd); i++) {
        f(c);
        for (int d = nd - 1; d >= 0; d--) { if (++c[d] < m.o[d] + m.s[d]) break; c[d] = m.o[d]; }
    }
}
// a shared array, divided between the users along one dimension; every byte is owned by one user
struct Shared { char *b = nullptr; Reg r; int nd = 1; u64 unit = 1; std::vector<unsigned char> model; std::vector<int> owner; } g_sh;
const u64 GUARD = 64;
void check_shared(const char *when, int user) {
    CHECKED();
    // the bytes of the user are as the user left them, the guard around the array too
    for (u64 i = 0; i < g_sh.model.size(); i++)
        if ((g_sh.owner[i] == user || g_sh.owner[i] < 0) && (unsigned char)g_sh.b[i] != g_sh.model[i]) { fail("foreign-byte", strf("%s: byte %lld of the shared array, %s, changed", when, (long long)i - (long long)GUARD, g_sh.owner[i] < 0 ? "outside it" : "not selected by any copy under way")); return; }
}
void fillrand(std::vector<unsigned char> &v, u64 seed) { for (size_t i = 0; i < v.size(); i++) v[i] = (unsigned char)h64(seed, i); }
void exec(AppOp *o) {
    std::string op = o->s1;
    int nd = (int)o->a[0], user = (int)o->a[1];
    u64 unit = o->a[2];
    Reg a, b;
    for (int d = 0; d < 3; d++) { a.o[d] = o->a[4 + d]; a.s[d] = o->a[7 + d]; b.o[d] = o->a[10 + d]; b.s[d] = o->a[13 + d]; }
    Reg m, a0 = a, b0 = b;
    if (op == "pair") {
        bool w = meet(a, b, nd, m);
        u64 *oo = (u64 *)1, *os = (u64 *)1;
        int c1 = check_overlap(nd, a.o, a.s, b.o, b.s);
        PDC_region_overlap_detect(nd, a.o, a.s, b.o, b.s, &oo, &os);
        CHECKED();
        std::string t = show(a0, nd) + " and " + show(b0, nd);
        if (!!c1 != w) { fail("overlap", strf("%s: overlap is reported as %d", t.c_str(), c1)); return; }
        if ((oo != nullptr) != w) { fail("overlap", strf("%s: an intersection is %sreported", t.c_str(), oo ? "" : "not ")); return; }
        if (w) {
            probe("overlapping_pairs");
            for (int d = 0; d < nd; d++)
                if (oo[d] != m.o[d] || os[d] != m.s[d]) { fail("intersection", strf("%s: the intersection in dimension %d is reported as %llu+%llu", t.c_str(), d, (ull)oo[d], (ull)os[d])); return; }
            sim_free(oo);
            bool in = true;
            for (int d = 0; d < nd; d++) if (m.o[d] != a0.o[d] || m.s[d] != a0.s[d]) in = false;
            int r = detect_region_contained(a.o, a.s, b.o, b.s, nd);
            if (!!r != in) { fail("containment", strf("%s: containment is reported as %d", t.c_str(), r)); return; }
            if (in) probe("contained_pairs");
        }
    }
    else if (op == "overlap") { // the shared part of a is copied into b
        if (!meet(a, b, nd, m)) return;
        std::vector<unsigned char> src(cells(a, nd) * unit), dst(cells(b, nd) * unit);
        fillrand(src, o->id * 3 + CFG.fill);
        fillrand(dst, o->id * 5 + 1);
        std::vector<unsigned char> want = dst, src0 = src;
        each(m, nd, [&](const u64 *c) { memcpy(&want[idx(b, nd, c) * unit], &src0[idx(a, nd, c) * unit], unit); });
        char *s = (char *)sim_malloc(src.size()), *d = (char *)sim_malloc(dst.size());
        memcpy(s, src.data(), src.size());
        memcpy(d, dst.data(), dst.size());
        memcpy_overlap_subregion(nd, unit, s, a.o, a.s, d, b.o, b.s, m.o, m.s);
        CHECKED();
        if (memcmp(d, want.data(), want.size())) fail("copy", strf("copying the part of %s (unit %llu) shared with %s gives another result than element by element", show(a0, nd).c_str(), (ull)unit, show(b0, nd).c_str()));
        else if (memcmp(s, src0.data(), src0.size())) fail("copy", "copying changed its source");
        sim_free(s);
        sim_free(d);
    }
    else if (op == "block" || op == "share") { // between the shared array's part of this user and a block of its own
        if (!g_sh.b) return;
        nd = g_sh.nd;
        unit = g_sh.unit;
        Reg part = g_sh.r; // this user's slab
        u64 w = g_sh.r.s[nd - 1] / 4, k = user & 3;
        part.o[nd - 1] = k * w;
        part.s[nd - 1] = k == 3 ? g_sh.r.s[nd - 1] - 3 * w : w;
        Reg sub;
        for (int d = 0; d < nd; d++) { sub.o[d] = part.o[d] + o->a[4 + d] % part.s[d]; sub.s[d] = 1 + o->a[7 + d] % (part.o[d] + part.s[d] - sub.o[d]); }
        u64 n = cells(sub, nd) * unit;
        char *blk = (char *)sim_malloc(n);
        std::vector<unsigned char> v(n);
        fillrand(v, o->id * 7 + CFG.fill);
        memcpy(blk, v.data(), n);
        Reg base = g_sh.r, s2 = sub;
        if (op == "block") {
            bool out = o->a[3]; // from the array to the block
            memcpy_subregion(nd, unit, out ? 2 : 1, g_sh.b + GUARD, base.s, blk, s2.o, s2.s);
            std::vector<unsigned char> want(n);
            u64 at = 0;
            each(sub, nd, [&](const u64 *c) { u64 x = GUARD + idx(g_sh.r, nd, c) * unit; if (out) memcpy(&want[at], &g_sh.model[x], unit); else memcpy(&g_sh.model[x], &v[at], unit); at += unit; });
            CHECKED();
            if (memcmp(blk, out ? want.data() : v.data(), n)) { fail("copy", strf("copying block %s %s an array gives another result than element by element", show(sub, nd).c_str(), out ? "out of" : "into")); }
        } else {
            memcpy_overlap_subregion(nd, unit, blk, s2.o, s2.s, g_sh.b + GUARD, base.o, base.s, sub.o, sub.s);
            u64 at = 0;
            each(sub, nd, [&](const u64 *c) { memcpy(&g_sh.model[GUARD + idx(g_sh.r, nd, c) * unit], &v[at], unit); at += unit; });
        }
        sim_free(blk);
        if (!S.violated) check_shared(op.c_str(), user);
    }
    if (!S.violated && (memcmp(&a0, &a, sizeof a) || memcmp(&b0, &b, sizeof b))) fail("arguments", "the regions handed over were changed");
    S.mix(o->id);
}
void gen(Rng &r, Plan &p, int) {
    CFG.max_steps = 20000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    int users = 1 + (int)r.below(4), nd = 1 + (int)r.below(3);
    static const int un[] = {1, 2, 4, 8, 3, 16};
    p.note["nd"] = std::to_string(nd);
    p.note["unit"] = std::to_string(un[r.below(6)]);
    for (int d = 0; d < 3; d++) p.note[strf("s%d", d)] = std::to_string(d == nd - 1 ? 4 + r.below(14) : 1 + r.below(7));
    for (int u = 0; u < users; u++) {
        int n = 4 + (int)r.below(20);
        for (int i = 0; i < n; i++) {
            AppOp &o = p.add(0, u, COMP);
            int k = (int)r.below(10);
            sets(o.s1, k < 4 ? "pair" : k < 6 ? "overlap" : k < 9 ? "block" : "share");
            o.a[0] = 1 + r.below(3);
            o.a[1] = u;
            o.a[2] = un[r.below(6)];
            o.a[3] = r.below(2);
            u64 big = k < 4 && r.chance(0.3) ? 1ull << (20 + r.below(38)) : 0, span = 1 + r.below(12);
            for (int d = 0; d < 3; d++) {
                o.a[4 + d] = r.below(span) + big;
                o.a[7 + d] = 1 + r.below(span);
                o.a[10 + d] = r.below(span) + big;
                o.a[13 + d] = 1 + r.below(span);
                // often aligned to each other: equal, adjacent, sharing an end
                int al = (int)r.below(8);
                if (al == 0) { o.a[10 + d] = o.a[4 + d]; }
                else if (al == 1) { o.a[10 + d] = o.a[4 + d]; o.a[13 + d] = o.a[7 + d]; }
                else if (al == 2) { o.a[10 + d] = o.a[4 + d] + o.a[7 + d]; }
                else if (al == 3) { o.a[4 + d] = o.a[10 + d] + o.a[13 + d]; }
                else if (al == 4) { o.a[10 + d] = o.a[4 + d] + o.a[7 + d] - 1; }
                else if (al == 5 && o.a[10 + d] < o.a[4 + d] + o.a[7 + d]) { o.a[13 + d] = o.a[4 + d] + o.a[7 + d] - o.a[10 + d]; }
                if (big && r.chance(0.3)) o.a[(r.chance(0.5) ? 7 : 13) + d] += 1ull << (20 + r.below(38));
            }
        }
    }
}
void run(Rng &) {
    g_sh = Shared();
    comp_run([] {
        auto num = [](const std::string &n, u64 d) { return PLAN->note.count(n) ? strtoull(PLAN->note[n].c_str(), 0, 10) : d; };
        g_sh.nd = (int)num("nd", 1);
        g_sh.unit = num("unit", 1);
        for (int d = 0; d < 3; d++) g_sh.r.s[d] = num(strf("s%d", d), 4);
        u64 n = cells(g_sh.r, g_sh.nd) * g_sh.unit;
        g_sh.b = (char *)sim_malloc(n + 2 * GUARD);
        g_sh.model.resize(n + 2 * GUARD);
        fillrand(g_sh.model, CFG.fill + 99);
        memcpy(g_sh.b, g_sh.model.data(), g_sh.model.size());
        g_sh.owner.assign(n + 2 * GUARD, -1);
        u64 w = g_sh.r.s[g_sh.nd - 1] / 4, last = g_sh.r.s[g_sh.nd - 1];
        for (u64 i = 0; i < n; i++) g_sh.owner[GUARD + i] = (int)std::min<u64>(3, (i / g_sh.unit % last) / (w ? w : 1));
    }, exec, [] {
        for (int u = 0; u < 4 && !S.violated; u++) check_shared("at the end", u);
        if (g_sh.b) sim_free(g_sh.b);
    }, "regions");
}
Reg_ r22({"P22", gen, nullptr, run, 1, nullptr});
}
