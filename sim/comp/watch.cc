// P29: stopwatches under a simulated clock that other users' work advances and that is set forwards and back.
#include "comp.h"
#include <math.h>
extern "C" {
#include "timer_utils.h"
int sim_usleep(unsigned);
}
namespace {
struct Ref { bool started = false, running = false, paused = false; double lo = 0, hi = 0; u64 b = 0, e = 0; int parts = 0; }; // time it ran in ns; begin of the running part
stopwatch_t g_w[8];
Ref g_r[8];
void add(Ref &r, u64 b, u64 e) { // the part that ran ends between b and e
    r.lo += b > r.e ? (double)(b - r.e) : 0;
    r.hi += (double)(e - r.b);
    r.parts++;
}
void exec(AppOp *o) {
    std::string k = o->s1;
    int i = (int)o->a[0] & 7;
    stopwatch_t *w = &g_w[i];
    Ref &r = g_r[i];
    if (k == "sleep") { sim_usleep((unsigned)o->a[1]); return; }
    u64 b = S.now;
    if (k == "start") {
        timer_start(w);
        r = Ref();
        r.started = r.running = true;
        r.b = b; r.e = S.now;
    }
    else if (!r.started) return;
    else if (k == "pause") {
        timer_pause(w);
        if (r.running) { add(r, b, S.now); r.running = false; r.paused = true; }
    }
    else if (k == "resume") {
        timer_unpause(w);
        if (r.paused) { r.paused = false; r.running = true; r.b = b; r.e = S.now; }
    }
    else { // read
        double us = o->a[1] == 0 ? timer_delta_us(w) : o->a[1] == 1 ? timer_delta_ms(w) * 1e3 : o->a[1] == 2 ? timer_delta_s(w) * 1e6 : o->a[1] == 3 ? timer_delta_m(w) * 60e6 : timer_delta_h(w) * 3600e6;
        Ref t = r;
        if (t.running) add(t, b, S.now);
        CHECKED();
        double lo = t.lo / 1e3 - 1.001 * t.parts - 1e-6 * fabs(us), hi = t.hi / 1e3 + 1.001 * t.parts + 1e-6 * fabs(us);
        if (us < lo || us > hi) { fail("elapsed", strf("a stopwatch that ran for %.0f to %.0f us in %d parts reports %.0f us%s", t.lo / 1e3, t.hi / 1e3, t.parts, us, r.running ? "" : " (it is paused)")); return; }
        if (t.parts > 1) probe("several_parts");
        S.mix((u64)us);
    }
}
void gen(Rng &r, Plan &p, int) {
    CFG.fill = (int)r.below(256);
    CFG.clock_jump = r.chance(0.5) ? (r.chance(0.5) ? 0.05 : 0.4) : 0;
    p.phases.resize(1);
    int nc = 1 + (int)r.below(4);
    for (int c = 0; c < nc; c++) {
        int n = 4 + (int)r.below(30), nw = 1 + (int)r.below(2);
        for (int i = 0; i < n; i++) {
            AppOp &o = p.add(0, c, COMP);
            static const char *K[] = {"start", "pause", "pause", "resume", "resume", "read", "read", "sleep", "sleep"};
            sets(o.s1, i == 0 ? "start" : K[r.below(9)]);
            o.a[0] = c * 2 + r.below(nw);
            o.a[1] = !strcmp(o.s1, "sleep") ? (i64)r.below(r.chance(0.3) ? 8000000 : 30000) : (i64)r.below(5);
        }
    }
}
void run(Rng &) {
    for (auto &x : g_r) x = Ref();
    comp_run(nullptr, exec, nullptr, "stopwatches");
}
Reg_ r29({"P29", gen, nullptr, run, 1, nullptr});
}
