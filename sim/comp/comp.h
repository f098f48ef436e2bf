// Component simulations: one simulated process whose fibers run the operations of the plan on a component.
#pragma once
#include "plan.h"
#include <stdio.h>
// run the plan: one fiber per client, `init` first and `fini` after all of them, in a fiber of their own
inline void comp_run(std::function<void()> init, std::function<void(AppOp *)> exec, std::function<void()> fini, const char *what) {
    static bool ready, fin;
    static int left;
    Node *n = new_plain_node();
    ready = fin = false;
    size_t nc = 0;
    for (auto &p : PLAN->phases) nc = std::max(nc, p.ops.size());
    left = (int)nc;
    static u64 seq;
    for (size_t c = 0; c < nc; c++)
        spawn(n, "user" + std::to_string(c), [=] {
            while (!ready) block(&ready, "start");
            for (auto &ph : PLAN->phases)
                if (c < ph.ops.size())
                    for (auto &o : ph.ops[c]) {
                        if (DROP.count(o.id)) continue;
                        o.t0 = ++seq;
                        o.status = 1;
                        simlog("OP %s", describe(o).c_str());
                        S.cur->fail_nth = (int)o.a[39];
                        S.cur->fail_fired = 0;
                        exec(&o);
                        S.cur->fail_nth = 0;
                        o.t1 = ++seq;
                        o.status = 2;
                        S.st.ops++;
                        S.last_progress = S.now;
                        S.mix(o.id * 7 + o.ret);
                        simlog("   done #%d ret %lld", o.id, (long long)o.ret);
                        yield_now();
                    }
            left--;
            wake_all(&left);
        }, 2 << 20);
    spawn(n, "main", [=] {
        if (init) init();
        ready = true;
        wake_all(&ready);
        while (left) block(&left, "users");
        if (fini) fini();
        fin = true;
    }, 2 << 20);
    run_until([] { return fin; }, what);
    std::string why;
    if (!S.violated && !mem_check_all(&why)) fail("memory", why);
}
inline bool alloc_failed() { return S.cur && S.cur->fail_fired > 0; }
#define CHECKED() (S.st.checks++)
