// Simulated Mercury: RPC and bulk transfer between simulated processes over a network whose every delay is a choice.
#include "sim.h"
extern "C" {
#include "../include/mercury.h"
}
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <unordered_set>

extern "C" void *sim_malloc(size_t);
extern "C" void *sim_calloc(size_t, size_t);
extern "C" void sim_free(void *);

struct hg_addr { Node *node; int id; };
struct Reg { std::string name; hg_proc_cb_t in, out; hg_rpc_cb_t cb; bool no_resp = false; };
struct hg_class { Node *node; std::map<hg_id_t, Reg> regs; hg_return_t (*create_cb)(hg_handle_t, void *) = nullptr; void *create_arg = nullptr; };
struct BulkReg { Node *owner; std::vector<std::pair<char *, u64>> seg; u64 size = 0; bool freed = false; int refs = 0; };
struct hg_bulk { Node *node; BulkReg *reg; int refs; bool local; std::vector<void *> own; };
struct Msg { // request
    Node *src; u64 id; std::vector<uint8_t> in; hg_handle_t origin;
};
struct hg_handle {
    hg_info info;
    Node *node; Node *peer;
    hg_class *cls;
    bool incoming = false, responded = false, destroyed = false;
    int refs = 1;
    std::vector<uint8_t> in, out;
    bool have_out = false;
    hg_cb_t cb = nullptr; void *arg = nullptr;
    hg_handle *origin = nullptr; // for an incoming handle: the requester's handle
    void *data = nullptr;
    hg_addr *peer_addr = nullptr;
};
struct Completion { std::function<void()> fn; };
struct HgState {
    hg_class *cls = nullptr;
    hg_context *ctx = nullptr;
    std::deque<std::function<void()>> incoming; // delivered, not yet seen by progress
    std::deque<std::function<void()>> done;     // ready for trigger
    hg_addr *self = nullptr;
};
struct hg_context { Node *node; hg_class *cls; };
struct hg_op_id { int x; };
struct hg_proc { hg_proc_op_t op; std::vector<uint8_t> *buf; size_t pos; bool bad; };

static std::map<std::pair<int, int>, u64> g_last_arrival; // FIFO per ordered pair of processes
static hg_addr *addr_of(Node *n) {
    static std::map<int, hg_addr *> m;
    hg_addr *&a = m[n->id];
    if (!a) a = new hg_addr{n, n->id};
    return a;
}
static u64 latency() {
    double l = CFG.lat_base + exp_choice(CFG.lat_mean, "latency");
    if (chance(CFG.slow_prob, "slow message")) { l += exp_choice(CFG.slow_mean, "slow latency"); S.st.slow_msgs++; }
    return (u64)l;
}
static void deliver(Node *dst, std::function<void()> fn) {
    HgState *h = dst->hg;
    if (!dst->alive || !h) return;
    if (S.last_progress < S.now) S.last_progress = S.now;
    h->incoming.push_back(std::move(fn));
    wake_all(h);
}
static void send(Node *src, Node *dst, std::function<void()> fn) {
    u64 t = S.now + latency();
    u64 &last = g_last_arrival[{src->id, dst->id}];
    if (t <= last) t = last + 1;
    last = t;
    S.st.msgs++;
    at(t, [dst, fn] { deliver(dst, fn); });
}
static void complete(Node *n, std::function<void()> fn) { // a completion of a local operation
    if (!n->alive || !n->hg) return;
    n->hg->done.push_back(std::move(fn));
    wake_all(n->hg);
}
static u64 g_handle_misuse = 0;
static void check_handle(hg_handle_t h, const char *what) {
    if (!h) return;
    if (h->destroyed) { g_handle_misuse++; simlog("use of a destroyed handle in %s", what); }
}
u64 handle_misuse() { return g_handle_misuse; }

extern "C" {
hg_return_t HG_Version_get(unsigned *a, unsigned *b, unsigned *c) { *a = 2; *b = 0; *c = 0; return HG_SUCCESS; }
hg_class_t *HG_Init_opt(const char *s, hg_bool_t listen, const struct hg_init_info *i) {
    Node *n = me();
    n->hg = new HgState;
    n->hg->cls = new hg_class{n};
    n->hg->self = addr_of(n);
    return n->hg->cls;
}
hg_class_t *HG_Init(const char *s, hg_bool_t l) { return HG_Init_opt(s, l, nullptr); }
hg_return_t HG_Finalize(hg_class_t *) { return HG_SUCCESS; }
void HG_Cleanup(void) {}
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *c, hg_return_t (*cb)(hg_handle_t, void *), void *arg) { c->create_cb = cb; c->create_arg = arg; return HG_SUCCESS; }
hg_context_t *HG_Context_create(hg_class_t *c) { c->node->hg->ctx = new hg_context{c->node, c}; return c->node->hg->ctx; }
hg_return_t HG_Context_destroy(hg_context_t *) { return HG_SUCCESS; }
hg_class_t *HG_Context_get_class(const hg_context_t *c) { return c->cls; }
hg_id_t HG_Register_name(hg_class_t *c, const char *name, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb) {
    u64 h = 1469598103934665603ull;
    for (const char *p = name; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    Reg r;
    r.name = name; r.in = in; r.out = out; r.cb = cb;
    c->regs[h] = r;
    return h;
}
hg_return_t HG_Registered_disable_response(hg_class_t *c, hg_id_t id, hg_bool_t d) { c->regs[id].no_resp = d; return HG_SUCCESS; }

hg_return_t HG_Addr_lookup(hg_context_t *ctx, hg_cb_t cb, void *arg, const char *name, hg_op_id_t *op) {
    point(20);
    Node *n = ctx->node;
    hg_addr *a = nullptr;
    int id = -1;
    if (sscanf(name, "sim://%d", &id) == 1 && id >= 0 && id < (int)S.nodes.size()) a = addr_of(S.nodes[id]);
    at(S.now + latency(), [n, cb, arg, a] {
        complete(n, [cb, arg, a] {
            hg_cb_info i;
            memset(&i, 0, sizeof i);
            i.arg = arg; i.type = HG_CB_LOOKUP; i.ret = a ? HG_SUCCESS : HG_HOSTUNREACH; i.info.lookup.addr = a;
            cb(&i);
        });
    }, n);
    return HG_SUCCESS;
}
hg_return_t HG_Addr_free(hg_class_t *, hg_addr_t) { return HG_SUCCESS; }
hg_return_t HG_Addr_self(hg_class_t *c, hg_addr_t *a) { *a = addr_of(c->node); return HG_SUCCESS; }
hg_return_t HG_Addr_dup(hg_class_t *, hg_addr_t a, hg_addr_t *o) { *o = a; return HG_SUCCESS; }
hg_bool_t HG_Addr_cmp(hg_class_t *, hg_addr_t a, hg_addr_t b) { return a && b && a->node == b->node; }
hg_return_t HG_Addr_to_string(hg_class_t *, char *b, hg_size_t *sz, hg_addr_t a) {
    std::string s = "sim://" + std::to_string(a->node->id);
    if (!b) { *sz = s.size() + 1; return HG_SUCCESS; }
    if (*sz < s.size() + 1) return HG_OVERFLOW;
    strcpy(b, s.c_str());
    *sz = s.size() + 1;
    return HG_SUCCESS;
}

// ------------------------------------------------------------------ serialization
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return p->op; }
hg_return_t hg_proc_raw(hg_proc_t p, void *d, hg_size_t n) {
    if (p->op == HG_FREE) return HG_SUCCESS;
    if (p->op == HG_ENCODE) { p->buf->insert(p->buf->end(), (uint8_t *)d, (uint8_t *)d + n); return HG_SUCCESS; }
    if (p->pos + n > p->buf->size()) { p->bad = true; return HG_OVERFLOW; }
    memcpy(d, p->buf->data() + p->pos, n);
    p->pos += n;
    return HG_SUCCESS;
}
hg_return_t hg_proc_memcpy(hg_proc_t p, void *d, hg_size_t n) { return hg_proc_raw(p, d, n); }
hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d) {
    char **s = (char **)d;
    u64 len = 0;
    switch (p->op) {
    case HG_ENCODE:
        len = *s ? strlen(*s) + 1 : 0;
        hg_proc_raw(p, &len, 8);
        if (len) hg_proc_raw(p, *s, len);
        return HG_SUCCESS;
    case HG_DECODE:
        if (hg_proc_raw(p, &len, 8) != HG_SUCCESS || p->pos + len > p->buf->size()) { p->bad = true; *s = nullptr; return HG_OVERFLOW; }
        if (!len) { *s = nullptr; return HG_SUCCESS; }
        *s = (char *)sim_malloc(len);
        if (!*s) return HG_NOMEM;
        return hg_proc_raw(p, *s, len);
    case HG_FREE:
        sim_free(*s);
        *s = nullptr;
        return HG_SUCCESS;
    }
    return HG_SUCCESS;
}
hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d) { return hg_proc_hg_string_t(p, d); }
hg_return_t hg_proc_hg_bulk_t(hg_proc_t p, void *d) {
    hg_bulk **b = (hg_bulk **)d;
    u64 v = 0;
    switch (p->op) {
    case HG_ENCODE: v = *b ? (u64)(*b)->reg : 0; return hg_proc_raw(p, &v, 8);
    case HG_DECODE:
        if (hg_proc_raw(p, &v, 8) != HG_SUCCESS) { *b = nullptr; return HG_OVERFLOW; }
        if (!v) { *b = nullptr; return HG_SUCCESS; }
        *b = new hg_bulk{me(), (BulkReg *)v, 1, false};
        return HG_SUCCESS;
    case HG_FREE:
        if (*b && *b != (hg_bulk *)1) HG_Bulk_free(*b);
        *b = nullptr;
        return HG_SUCCESS;
    }
    return HG_SUCCESS;
}

// ------------------------------------------------------------------ RPC
static hg_handle *new_handle(Node *n, Node *peer, hg_id_t id) {
    hg_handle *h = new hg_handle;
    h->node = n;
    h->peer = peer;
    h->cls = n->hg->cls;
    h->info.hg_class = h->cls;
    h->info.context = n->hg->ctx;
    h->info.addr = addr_of(peer);
    h->info.id = id;
    h->info.context_id = 0;
    if (h->cls->create_cb) h->cls->create_cb(h, h->cls->create_arg);
    return h;
}
hg_return_t HG_Create(hg_context_t *c, hg_addr_t a, hg_id_t id, hg_handle_t *h) {
    if (!a) { *h = nullptr; return HG_INVALID_ARG; }
    *h = new_handle(c->node, a->node, id);
    return HG_SUCCESS;
}
hg_return_t HG_Destroy(hg_handle_t h) {
    if (!h) return HG_SUCCESS;
    check_handle(h, "HG_Destroy");
    if (--h->refs <= 0) h->destroyed = true;
    return HG_SUCCESS;
}
const struct hg_info *HG_Get_info(hg_handle_t h) { check_handle(h, "HG_Get_info"); return h ? &h->info : nullptr; }
hg_return_t HG_Set_data(hg_handle_t h, void *d, void (*f)(void *)) { h->data = d; return HG_SUCCESS; }
void *HG_Get_data(hg_handle_t h) { return h->data; }
static hg_return_t decode(hg_handle_t h, std::vector<uint8_t> &buf, hg_proc_cb_t p, void *out) {
    hg_proc pr{HG_DECODE, &buf, 0, false};
    if (!p) return HG_SUCCESS;
    hg_return_t r = p(&pr, out);
    return pr.bad ? HG_OVERFLOW : r;
}
hg_return_t HG_Get_input(hg_handle_t h, void *in) {
    check_handle(h, "HG_Get_input");
    h->refs++;
    return decode(h, h->in, h->cls->regs[h->info.id].in, in);
}
hg_return_t HG_Free_input(hg_handle_t h, void *in) {
    std::vector<uint8_t> e;
    hg_proc pr{HG_FREE, &e, 0, false};
    if (h->cls->regs[h->info.id].in) h->cls->regs[h->info.id].in(&pr, in);
    if (--h->refs <= 0) h->destroyed = true;
    return HG_SUCCESS;
}
hg_return_t HG_Get_output(hg_handle_t h, void *out) {
    check_handle(h, "HG_Get_output");
    if (!h->have_out) return HG_FAULT;
    h->refs++;
    return decode(h, h->out, h->cls->regs[h->info.id].out, out);
}
hg_return_t HG_Free_output(hg_handle_t h, void *out) {
    std::vector<uint8_t> e;
    hg_proc pr{HG_FREE, &e, 0, false};
    if (h->cls->regs[h->info.id].out) h->cls->regs[h->info.id].out(&pr, out);
    if (--h->refs <= 0) h->destroyed = true;
    return HG_SUCCESS;
}
static void forward_done(hg_handle *h, hg_return_t ret) {
    hg_cb_info i;
    memset(&i, 0, sizeof i);
    i.arg = h->arg; i.ret = ret; i.type = HG_CB_FORWARD; i.info.forward.handle = h;
    if (h->cb) h->cb(&i);
    if (--h->refs <= 0) h->destroyed = true;
}
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in) {
    check_handle(h, "HG_Forward");
    Node *src = h->node, *dst = h->peer;
    Reg &r = h->cls->regs[h->info.id];
    std::vector<uint8_t> buf;
    hg_proc pr{HG_ENCODE, &buf, 0, false};
    if (r.in && in) { hg_return_t e = r.in(&pr, in); if (e != HG_SUCCESS) return e; }
    h->cb = cb;
    h->arg = arg;
    h->refs++;
    h->have_out = false;
    hg_id_t id = h->info.id;
    simlog("-> %s %s (%zu bytes)", dst->name().c_str(), r.name.c_str(), buf.size());
    S.mix(buf.size() * 11 + dst->id);
    if (!dst->alive || !dst->hg) {
        at(S.now + 5000000000ull, [src, h] { complete(src, [h] { forward_done(h, HG_HOSTUNREACH); }); }, src);
        return HG_SUCCESS;
    }
    bool noresp = r.no_resp;
    send(src, dst, [src, dst, id, buf, h] {
        // runs in the destination's progress call
        auto it = dst->hg->cls->regs.find(id);
        if (it == dst->hg->cls->regs.end()) { simlog("unregistered rpc"); return; }
        hg_handle *g = new_handle(dst, src, id);
        g->incoming = true;
        g->in = buf;
        g->origin = h;
        hg_rpc_cb_t rcb = it->second.cb;
        std::string name = it->second.name;
        dst->hg->done.push_back([g, rcb, name] { simlog("rpc %s from %s", name.c_str(), g->peer->name().c_str()); if (rcb) rcb(g); });
    });
    if (noresp) complete(src, [h] { forward_done(h, HG_SUCCESS); });
    point(20);
    return HG_SUCCESS;
}
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out) {
    if (!h) return HG_INVALID_ARG;
    check_handle(h, "HG_Respond");
    if (h->responded) { fail("protocol", h->node->name() + " answered the same request twice (" + h->cls->regs[h->info.id].name + ")"); return HG_FAULT; }
    h->responded = true;
    Reg &r = h->cls->regs[h->info.id];
    std::vector<uint8_t> buf;
    hg_proc pr{HG_ENCODE, &buf, 0, false};
    if (r.out && out) { hg_return_t e = r.out(&pr, out); if (e != HG_SUCCESS) return e; }
    Node *src = h->node, *dst = h->peer;
    hg_handle *o = h->origin;
    h->refs++;
    simlog("=> %s reply %s (%zu bytes)", dst->name().c_str(), r.name.c_str(), buf.size());
    if (dst->alive && o)
        send(src, dst, [o, buf, dst] {
            o->out = buf;
            o->have_out = true;
            dst->hg->done.push_back([o] { forward_done(o, HG_SUCCESS); });
        });
    complete(src, [h, cb, arg] {
        hg_cb_info i;
        memset(&i, 0, sizeof i);
        i.arg = arg; i.ret = HG_SUCCESS; i.type = HG_CB_RESPOND; i.info.respond.handle = h;
        if (cb) cb(&i);
        if (--h->refs <= 0) h->destroyed = true;
    });
    point(20);
    return HG_SUCCESS;
}
hg_return_t HG_Progress(hg_context_t *c, unsigned timeout_ms) {
    HgState *h = c->node->hg;
    if (c->node->server) c->node->loaded_ready = true;
    point(10);
    if (h->incoming.empty() && h->done.empty()) {
        if (!timeout_ms) return HG_TIMEOUT;
        block(h, "progress", (u64)timeout_ms * 1000000ull);
    }
    bool any = !h->done.empty();
    // deliver a number of the pending network events
    u64 k = h->incoming.size();
    if (k > 1) k = k - choose(k, "progress batch");
    while (k-- && !h->incoming.empty()) {
        auto f = std::move(h->incoming.front());
        h->incoming.pop_front();
        f();
        any = true;
    }
    return any ? HG_SUCCESS : HG_TIMEOUT;
}
hg_return_t HG_Trigger(hg_context_t *c, unsigned timeout_ms, unsigned max, unsigned *count) {
    HgState *h = c->node->hg;
    unsigned n = 0;
    while (n < max && !h->done.empty()) {
        auto f = std::move(h->done.front());
        h->done.pop_front();
        n++;
        f();
        point(10);
    }
    if (count) *count = n;
    return n ? HG_SUCCESS : HG_TIMEOUT;
}

// ------------------------------------------------------------------ bulk data
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **bufs, const hg_size_t *sizes, hg_uint8_t flags, hg_bulk_t *out) {
    Node *nd = c->node;
    BulkReg *r = new BulkReg;
    r->owner = nd;
    hg_bulk *b = new hg_bulk{nd, r, 1, true};
    if (!n) return HG_INVALID_ARG;
    for (u32 i = 0; i < n; i++) {
        char *p = bufs ? (char *)bufs[i] : nullptr;
        if (!bufs || !p) {
            p = (char *)sim_calloc(1, sizes[i] ? sizes[i] : 1);
            if (!p) return HG_NOMEM;
            b->own.push_back(p);
        }
        r->seg.push_back({p, sizes[i]});
        r->size += sizes[i];
    }
    *out = b;
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_free(hg_bulk_t b) {
    if (!b) return HG_SUCCESS;
    if (--b->refs > 0) return HG_SUCCESS;
    if (b->refs < 0) { simlog("bulk handle freed twice"); return HG_SUCCESS; }
    if (b->local) {
        b->reg->freed = true;
        for (void *p : b->own) sim_free(p);
        b->own.clear();
    }
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_ref_incr(hg_bulk_t b) { b->refs++; return HG_SUCCESS; }
hg_size_t HG_Bulk_get_size(hg_bulk_t b) { return b ? b->reg->size : 0; }
hg_uint32_t HG_Bulk_get_segment_count(hg_bulk_t b) { return b ? b->reg->seg.size() : 0; }
hg_return_t HG_Bulk_access(hg_bulk_t b, hg_size_t off, hg_size_t size, hg_uint8_t flags, hg_uint32_t max, void **ptrs, hg_size_t *sizes, hg_uint32_t *cnt) {
    u32 k = 0;
    for (auto &s : b->reg->seg) {
        if (k >= max || !size) break;
        if (off >= s.second) { off -= s.second; continue; }
        u64 n = std::min<u64>(s.second - off, size);
        if (ptrs) ptrs[k] = s.first + off;
        if (sizes) sizes[k] = n;
        size -= n;
        off = 0;
        k++;
    }
    if (cnt) *cnt = k;
    return HG_SUCCESS;
}
static void seg_copy(BulkReg *dst, u64 doff, BulkReg *src, u64 soff, u64 n) {
    size_t di = 0, si = 0;
    while (di < dst->seg.size() && doff >= dst->seg[di].second) doff -= dst->seg[di++].second;
    while (si < src->seg.size() && soff >= src->seg[si].second) soff -= src->seg[si++].second;
    while (n && di < dst->seg.size() && si < src->seg.size()) {
        u64 k = std::min(n, std::min(dst->seg[di].second - doff, src->seg[si].second - soff));
        memmove(dst->seg[di].first + doff, src->seg[si].first + soff, k);
        n -= k; doff += k; soff += k;
        if (doff == dst->seg[di].second) { doff = 0; di++; }
        if (soff == src->seg[si].second) { soff = 0; si++; }
    }
}
hg_return_t HG_Bulk_transfer(hg_context_t *c, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t oa, hg_bulk_t ob, hg_size_t ooff, hg_bulk_t lb,
                             hg_size_t loff, hg_size_t size, hg_op_id_t *opid) {
    Node *n = c->node;
    if (!ob || !lb) return HG_INVALID_ARG;
    if (ooff + size > ob->reg->size || loff + size > lb->reg->size) { simlog("bulk transfer out of range"); return HG_INVALID_ARG; }
    BulkReg *orig = ob->reg, *loc = lb->reg;
    S.st.bulks++;
    S.st.bulk_bytes += size;
    simlog("bulk %s %llu bytes with %s", op == HG_BULK_PULL ? "pull" : "push", (unsigned long long)size, orig->owner->name().c_str());
    ob->refs++;
    lb->refs++;
    u64 t1 = S.now + latency();
    u64 cut = 0;
    if (size > 1) cut = choose(4, "split bulk") == 1 ? choose(size, "split at") : 0;
    auto ok = [orig, loc] { return !orig->freed && !loc->freed && orig->owner->alive; };
    auto copy = [op, orig, loc, ooff, loff](u64 a, u64 k) {
        if (op == HG_BULK_PULL) seg_copy(loc, loff + a, orig, ooff + a, k);
        else seg_copy(orig, ooff + a, loc, loff + a, k);
    };
    if (cut) { at(t1, [copy, cut, ok] { if (ok()) copy(0, cut); }, n); t1 += latency(); }
    at(t1, [=] {
        bool good = ok();
        if (good) copy(cut, size - cut);
        else simlog("bulk transfer on a freed or dead registration");
        if (S.last_progress < S.now) S.last_progress = S.now;
        complete(n, [=] {
            hg_cb_info i;
            memset(&i, 0, sizeof i);
            i.arg = arg; i.ret = good ? HG_SUCCESS : HG_FAULT; i.type = HG_CB_BULK;
            i.info.bulk.origin_handle = ob; i.info.bulk.local_handle = lb; i.info.bulk.op = op; i.info.bulk.size = size;
            if (cb) cb(&i);
            HG_Bulk_free(ob);
            HG_Bulk_free(lb);
        });
    }, n);
    point(20);
    return HG_SUCCESS;
}
}
