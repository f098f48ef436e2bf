// P27: histograms of generated data (the sampling of the value range is random: the seed decides it), copies of them, and
// merges of partial histograms in random order, as several servers produce them.
#include "comp.h"
#include <algorithm>
#include <math.h>
#include <float.h>
extern "C" {
#define DISK PDC_DISK_
#include "pdc_public.h"
#include "pdc_hist_pkg.h"
#undef DISK
}
namespace {
using ull = unsigned long long;
template <class T> double num(const void *d, u64 i) { return (double)((const T *)d)[i]; }
double val(pdc_var_type_t t, const void *d, u64 i) {
    switch (t) {
        case PDC_INT: return num<int>(d, i);
        case PDC_FLOAT: return num<float>(d, i);
        case PDC_DOUBLE: return num<double>(d, i);
        case PDC_INT64: return num<int64_t>(d, i);
        case PDC_UINT64: return num<uint64_t>(d, i);
        default: return num<uint32_t>(d, i);
    }
}
int width(pdc_var_type_t t) { return t == PDC_INT || t == PDC_FLOAT || t == PDC_UINT ? 4 : 8; }
void put(pdc_var_type_t t, void *d, u64 i, double v) {
    switch (t) {
        case PDC_INT: ((int *)d)[i] = (int)std::max(-2147483648.0, std::min(2147483647.0, v)); break;
        case PDC_FLOAT: ((float *)d)[i] = (float)std::max(-(double)FLT_MAX, std::min((double)FLT_MAX, v)); break;
        case PDC_DOUBLE: ((double *)d)[i] = std::max(-DBL_MAX, std::min(DBL_MAX, v)); break;
        case PDC_INT64: ((int64_t *)d)[i] = fabs(v) >= 9.2e18 ? (v < 0 ? INT64_MIN : INT64_MAX) : (int64_t)v; break;
        case PDC_UINT64: ((uint64_t *)d)[i] = v < 0 ? 0 : v >= 1.8e19 ? UINT64_MAX : (uint64_t)v; break;
        default: ((uint32_t *)d)[i] = v < 0 ? 0 : v > 4294967295.0 ? 4294967295u : (uint32_t)v; break;
    }
}
// bins contiguous and ordered
bool shape(pdc_histogram_t *h, const char *what) {
    CHECKED();
    int n = h->nbin;
    if (n < 1 || n > 4000) { fail("bins", strf("%s has %d bins", what, n)); return false; }
    for (int i = 0; i < n; i++) {
        if (!(h->range[2 * i] <= h->range[2 * i + 1])) { fail("bins", strf("%s: bin %d of %d is [%.17g, %.17g]", what, i, n, h->range[2 * i], h->range[2 * i + 1])); return false; }
        if (i && h->range[2 * i] != h->range[2 * i - 1]) { fail("bins", strf("%s: bin %d of %d begins at %.17g, the one before it ends at %.17g", what, i, n, h->range[2 * i], h->range[2 * i - 1])); return false; }
    }
    return true;
}
u64 total(pdc_histogram_t *h) { u64 t = 0; for (int i = 0; i < h->nbin; i++) t += h->bin[i]; return t; }
void judge(pdc_histogram_t *h, pdc_var_type_t t, const void *d, u64 n) {
    if (!shape(h, "the histogram")) return;
    std::vector<u64> want(h->nbin);
    int last = h->nbin - 1;
    double lo = val(t, d, 0), hi = lo;
    for (u64 i = 0; i < n; i++) {
        double v = val(t, d, i);
        lo = std::min(lo, v); hi = std::max(hi, v);
        int b = -1;
        if (v < h->range[1] && v >= h->range[0]) b = 0; // a bin holds its lower boundary; the last one holds its upper boundary too
        else if (v >= h->range[2 * last] && v <= h->range[2 * last + 1]) b = last;
        else {
            int l = 0, r = last;
            while (l < r) { int m = (l + r + 1) / 2; if (v >= h->range[2 * m]) l = m; else r = m - 1; }
            if (v >= h->range[2 * l] && v < h->range[2 * l + 1]) b = l;
        }
        if (b < 0) { fail("uncovered", strf("the value %.17g lies in no bin ([%.17g, %.17g], %d bins)", v, h->range[0], h->range[2 * last + 1], h->nbin)); return; }
        want[b]++;
    }
    if (h->range[0] != lo || h->range[2 * last + 1] < hi) { fail("range", strf("the values lie in [%.17g, %.17g], the histogram says [%.17g, %.17g]", lo, hi, h->range[0], h->range[2 * last + 1])); return; }
    for (int i = 0; i <= last; i++) {
        S.mix(h->bin[i]);
        if (h->bin[i] != want[i]) { fail("counts", strf("bin %d of %d, [%.17g, %.17g], counts %llu elements; %llu of %llu lie in it", i, h->nbin, h->range[2 * i], h->range[2 * i + 1], (ull)h->bin[i], (ull)want[i], (ull)n)); return; }
    }
}
bool equal(pdc_histogram_t *a, pdc_histogram_t *b) {
    return a->nbin == b->nbin && a->dtype == b->dtype && a->incr == b->incr && !memcmp(a->bin, b->bin, sizeof(u64) * a->nbin) && !memcmp(a->range, b->range, sizeof(double) * 2 * a->nbin);
}
struct Part { pdc_histogram_t *h; std::vector<double> el; std::vector<double> ends; bool exact = true; }; // a histogram, its elements, the upper ends of the generated histograms in it; all its merges were judged
// Every element is counted in the bin of the merged histogram that holds it; the largest element of a part, which its last
// bin holds although it is that bin's upper boundary, may be counted on either side of that boundary.
void judge_merged(const Part &m) {
    CHECKED();
    int last = m.h->nbin - 1;
    std::vector<u64> must(m.h->nbin), may(m.h->nbin);
    for (double v : m.el) {
        int l = 0, r = last;
        while (l < r) { int k = (l + r + 1) / 2; if (v >= m.h->range[2 * k]) l = k; else r = k - 1; }
        may[l]++;
        bool end = std::binary_search(m.ends.begin(), m.ends.end(), v);
        if (l && v == m.h->range[2 * l] && end) may[l - 1]++;
        else must[l]++;
    }
    for (int i = 0; i <= last; i++)
        if (m.h->bin[i] < must[i] || m.h->bin[i] > may[i]) { fail("merge-bin", strf("bin %d of %d, [%.17g, %.17g], of the merged histogram counts %llu elements; %llu to %llu of %llu lie in it", i, last + 1, m.h->range[2 * i], m.h->range[2 * i + 1], (ull)m.h->bin[i], (ull)must[i], (ull)may[i], (ull)m.el.size())); return; }
}
pdc_histogram_t *merge(std::vector<pdc_histogram_t *> v) {
    pdc_histogram_t *r = PDC_merge_hist((int)v.size(), v.data());
    CHECKED();
    if (!r && alloc_failed()) { probe("merge refused without memory"); return nullptr; }
    if (!r) { fail("merge", "merging histograms of one type fails"); return nullptr; }
    if (!shape(r, "the merged histogram")) return nullptr;
    u64 t = 0;
    double lo = INFINITY, hi = -INFINITY;
    std::vector<u64> least(r->nbin);
    for (auto *h : v) {
        t += total(h);
        lo = std::min(lo, h->range[0]);
        hi = std::max(hi, h->range[2 * h->nbin - 1]);
        for (int j = 0; j < h->nbin; j++) // a bin that lies in one bin of the result is counted there
            for (int k = 0; k < r->nbin; k++)
                if (h->range[2 * j] < h->range[2 * j + 1] && h->range[2 * j] >= r->range[2 * k] && h->range[2 * j + 1] <= r->range[2 * k + 1]) { least[k] += h->bin[j]; break; }
    }
    if (total(r) != t) { fail("merge-counts", strf("histograms of %llu elements merge to one of %llu", (ull)t, (ull)total(r))); return nullptr; }
    if (r->range[0] > lo || r->range[2 * r->nbin - 1] < hi) { fail("merge-range", strf("the merged histogram covers [%.17g, %.17g], its parts [%.17g, %.17g]", r->range[0], r->range[2 * r->nbin - 1], lo, hi)); return nullptr; }
    for (int k = 0; k < r->nbin; k++)
        if (r->bin[k] < least[k]) { fail("merge-bin", strf("bin %d, [%.17g, %.17g], counts %llu elements; its parts have %llu there", k, r->range[2 * k], r->range[2 * k + 1], (ull)r->bin[k], (ull)least[k])); return nullptr; }
    return r;
}
void exec(AppOp *o) {
    pdc_var_type_t t = (pdc_var_type_t)o->a[0];
    int parts = (int)o->a[1];
    std::vector<Part> hs;
    for (int p = 0; p < parts && !S.violated; p++) {
        Rng r;
        r.seed((u64)o->a[2] + p * 7919);
        u64 n = 1 + r.below(o->a[3]);
        int dist = o->a[4] == 9 ? (int)r.below(8) : (int)o->a[4];
        std::vector<char> d(n * width(t));
        double mag = pow(10, (double)o->a[5]), off = o->a[6] * pow(10, (double)o->a[7]);
        for (u64 i = 0; i < n; i++) {
            double u = r.below(1 << 30) / (double)(1 << 30), v;
            switch (dist) {
                case 0: v = (u - 0.5) * mag; break;
                case 1: v = mag; break; // constant
                case 2: v = r.chance(0.5) ? 0 : mag; break;
                case 3: v = (double)i * mag / n; break;
                case 4: v = (double)r.below(20) * exp2((double)(i64)o->a[8]); break; // at bin boundaries
                case 5: v = nextafter((double)((i64)r.below(40) - 20) * exp2((double)(i64)o->a[8]), r.chance(0.5) ? 1e300 : -1e300); break;
                case 6: v = pow(10, u * 2 * o->a[5]) * (r.chance(0.5) ? -1 : 1); break;
                default: v = r.chance(0.01) ? mag * 1000 * (u - 0.5) : u * mag; break; // outliers that the sampling misses
            }
            put(t, d.data(), i, v + off);
        }
        pdc_histogram_t *h = PDC_gen_hist(t, n, d.data());
        CHECKED();
        if (!h && alloc_failed()) { probe("histogram refused without memory"); S.cur->fail_nth = 0; continue; }
        if (!h) { fail("generate", strf("no histogram for %llu elements", (ull)n)); break; }
        judge(h, t, d.data(), n);
        if (S.violated) break;
        pdc_histogram_t *c = PDC_dup_hist(h);
        CHECKED();
        if (!c && alloc_failed()) { probe("duplicate refused without memory"); PDC_free_hist(h); continue; }
        if (!c || !equal(c, h)) { fail("dup", "a duplicate differs from its original"); break; }
        if (!hs.empty() && choose(2, "copy")) { // reuse the memory of another histogram
            S.cur->fail_nth = 0; // copying cannot report a failure
            PDC_copy_hist(c, hs[choose(hs.size(), "which")].h);
            PDC_copy_hist(c, h);
            if (!equal(c, h)) { fail("copy", "a copy differs from its original"); break; }
        }
        PDC_free_hist(c);
        Part pt{h, {}, {h->range[2 * h->nbin - 1]}};
        for (u64 i = 0; i < n; i++) pt.el.push_back(val(t, d.data(), i));
        hs.push_back(pt);
    }
    while (hs.size() > 1 && !S.violated) { // merge a few of the rest, chosen by the seed, until one is left
        u64 k = 2 + choose(hs.size() - 1, "merge");
        std::vector<pdc_histogram_t *> v;
        Part all;
        bool nested = true; // bins of these parts do not straddle the bins of a coarser one, unless an end bin was widened
        for (u64 i = 0; i < k; i++) {
            size_t j = choose(hs.size(), "part");
            v.push_back(hs[j].h);
            nested = nested && hs[j].exact;
            for (int b = 0; b < hs[j].h->nbin; b++) nested = nested && hs[j].h->range[2 * b] >= (ceil(hs[j].h->range[2 * b + 1] / hs[j].h->incr) - 1) * hs[j].h->incr;
            all.el.insert(all.el.end(), hs[j].el.begin(), hs[j].el.end());
            all.ends.insert(all.ends.end(), hs[j].ends.begin(), hs[j].ends.end());
            hs.erase(hs.begin() + j);
        }
        std::sort(all.ends.begin(), all.ends.end());
        all.h = merge(v);
        all.exact = nested;
        if (all.h && nested) judge_merged(all);
        pdc_histogram_t *m = all.h;
        for (auto *x : v) PDC_free_hist(x);
        if (m) hs.push_back(all);
        else if (!S.violated) break;
    }
    for (auto &h : hs) PDC_free_hist(h.h);
}
void gen(Rng &r, Plan &p, int) {
    CFG.max_steps = 20000000;
    CFG.fill = (int)r.below(256);
    p.phases.resize(1);
    int n = 1 + (int)r.below(4);
    static const int types[] = {PDC_INT, PDC_FLOAT, PDC_DOUBLE, PDC_INT64, PDC_UINT64, PDC_UINT};
    for (int i = 0; i < n; i++) {
        AppOp &o = p.add(0, 0, COMP);
        o.a[0] = types[r.below(6)];
        o.a[1] = r.chance(0.4) ? 1 : 2 + r.below(6);
        o.a[2] = (i64)r.below(1ull << 40);
        o.a[3] = r.chance(0.3) ? 3 : r.chance(0.5) ? 100 : 4000;
        o.a[4] = r.chance(0.5) ? 9 : r.below(8);
        o.a[5] = r.chance(0.6) ? (i64)r.below(9) - 2 : o.a[0] == PDC_DOUBLE ? (i64)r.below(280) - 140 : (i64)r.below(60) - 30;
        if (r.chance(0.4)) { o.a[6] = (i64)r.below(2001) - 1000; o.a[7] = r.chance(0.7) ? (i64)r.below(8) - 3 : r.below(15); }
        o.a[8] = (i64)r.below(20) - 10;
        if (r.chance(0.15)) o.a[39] = 1 + r.below(30);
    }
}
void run(Rng &) { comp_run(nullptr, exec, nullptr, "histograms"); }
Reg_ r27({"P27", gen, nullptr, run, 1, nullptr});
}
