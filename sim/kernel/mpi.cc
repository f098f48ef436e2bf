// Simulated MPI collectives within one group of processes (the servers, or the clients, of one incarnation).
#include "sim.h"
extern "C" {
#include "../include/mpi.h"
}
#include <string.h>
#include <stdio.h>
#include <algorithm>

struct Coll { std::string kind; int root = -1, arrived = 0; std::vector<std::string> in; std::vector<char> here; std::vector<int> newcomm; bool split_done = false; std::vector<int> a, b; };
struct Comm { std::vector<Node *> m; };
static std::map<int, std::vector<Node *>> g_group;                       // group -> world members by rank
static std::map<std::pair<int, int>, Comm> g_comm;                       // (group, id)
static std::map<std::pair<int, int>, int> g_next;                        // group -> next comm id
static std::map<std::tuple<int, int, u64>, Coll> g_coll;
static std::map<std::tuple<int, int, int>, u64> g_seq;                   // (group, comm, world rank) -> sequence

void mpi_group(int group, const std::vector<Node *> &members) { g_group[group] = members; g_comm[{group, MPI_COMM_WORLD}].m = members; g_next[{group, 0}] = 2; }

static size_t tsize(int t) { return t == MPI_CHAR ? 1 : t == MPI_UINT8_T ? 1 : (t == MPI_INT || t == MPI_UINT32_T) ? 4 : 8; }
static Comm &comm(int c) { return g_comm[{me()->group, c}]; }
static int rank_in(Comm &c) { for (size_t i = 0; i < c.m.size(); i++) if (c.m[i] == me()) return (int)i; return -1; }

// enter a collective: returns its state after recording this rank's contribution
static Coll &enter(int c, const char *kind, int root, const void *in, size_t n, int a = 0, int b = 0) {
    point(20);
    Comm &cm = comm(c);
    u64 s = g_seq[{me()->group, c, me()->rank}]++;
    Coll &k = g_coll[{me()->group, c, s}];
    if (k.in.empty()) { k.kind = kind; k.root = root; k.in.resize(cm.m.size()); k.here.resize(cm.m.size()); k.newcomm.resize(cm.m.size()); k.a.resize(cm.m.size()); k.b.resize(cm.m.size()); }
    if (k.kind != kind || k.root != root)
        fail("mpi", me()->name() + ": collective " + kind + " meets " + k.kind + " of another rank (operation " + std::to_string(s) + " on the communicator)");
    int r = rank_in(cm);
    if (in && in != MPI_IN_PLACE) k.in[r].assign((const char *)in, n);
    k.a[r] = a;
    k.b[r] = b;
    k.here[r] = 1;
    k.arrived++;
    if (S.last_progress < S.now) S.last_progress = S.now;
    simlog("mpi %s #%llu (%d of %zu)", kind, (unsigned long long)s, k.arrived, cm.m.size());
    wake_all(&k);
    return k;
}
static void wait_all(Coll &k, Comm &c) { while (k.arrived < (int)c.m.size()) block(&k, k.kind.c_str()); }
static void wait_rank(Coll &k, int r) { while (!k.here[r]) block(&k, k.kind.c_str()); }
// a rank that only contributes may return at once or wait for the others, as an MPI library may do
static void maybe_wait(Coll &k, Comm &c) { if (choose(3, "eager collective") == 1) wait_all(k, c); }

template <class T> static void red(void *d, const char *s, int n, int op) {
    T *x = (T *)d; const T *y = (const T *)s;
    for (int i = 0; i < n; i++) x[i] = op == MPI_SUM ? x[i] + y[i] : op == MPI_MAX ? std::max(x[i], y[i]) : std::min(x[i], y[i]);
}
static void reduce_into(void *d, const std::string &s, int n, int t, int op) {
    if (s.size() < n * tsize(t)) return;
    if (t == MPI_DOUBLE) red<double>(d, s.data(), n, op);
    else if (t == MPI_INT) red<int>(d, s.data(), n, op);
    else if (t == MPI_UINT32_T) red<unsigned>(d, s.data(), n, op);
    else if (t == MPI_LONG_LONG) red<long long>(d, s.data(), n, op);
    else if (t == MPI_UINT64_T) red<u64>(d, s.data(), n, op);
    else red<unsigned char>(d, s.data(), n, op);
}
extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Abort(MPI_Comm, int c) { fail("crash", me()->name() + " called MPI_Abort"); yield_now(); return 0; }
double MPI_Wtime(void) { return S.now / 1e9; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = rank_in(comm(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int)comm(c).m.size(); return 0; }
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    Comm cm = comm(c);
    Coll &k = enter(c, "comm_split", -1, nullptr, 0, color, key);
    wait_all(k, cm);
    if (!k.split_done) {
        k.split_done = true;
        std::map<int, std::vector<std::pair<std::pair<int, int>, int>>> by;
        for (size_t i = 0; i < cm.m.size(); i++) by[k.a[i]].push_back({{k.b[i], (int)i}, (int)i});
        for (auto &g : by) {
            std::sort(g.second.begin(), g.second.end());
            int id = g_next[{me()->group, 0}]++;
            for (auto &e : g.second) { g_comm[{me()->group, id}].m.push_back(cm.m[e.second]); k.newcomm[e.second] = id; }
        }
    }
    *out = k.newcomm[rank_in(cm)];
    return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info, MPI_Comm *out) { return MPI_Comm_split(c, me()->host, key, out); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return MPI_Comm_split(c, 0, rank_in(comm(c)), out); }
int MPI_Barrier(MPI_Comm c) { Coll &k = enter(c, "barrier", -1, nullptr, 0); wait_all(k, comm(c)); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    Comm &cm = comm(c);
    bool r = rank_in(cm) == root;
    Coll &k = enter(c, "bcast", root, r ? b : nullptr, r ? n * tsize(t) : 0);
    if (r) { maybe_wait(k, cm); return 0; }
    wait_rank(k, root);
    memcpy(b, k.in[root].data(), std::min(k.in[root].size(), n * tsize(t)));
    return 0;
}
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "reduce", root, in, n * tsize(t));
    if (rank_in(cm) != root) { maybe_wait(k, cm); return 0; }
    wait_all(k, cm);
    memcpy(out, k.in[0].data(), n * tsize(t));
    for (size_t i = 1; i < cm.m.size(); i++) reduce_into(out, k.in[i], n, t, op);
    return 0;
}
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "allreduce", -1, in == MPI_IN_PLACE ? out : in, n * tsize(t));
    wait_all(k, cm);
    memcpy(out, k.in[0].data(), n * tsize(t));
    for (size_t i = 1; i < cm.m.size(); i++) reduce_into(out, k.in[i], n, t, op);
    return 0;
}
int MPI_Scan(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "scan", -1, in, n * tsize(t));
    int r = rank_in(cm);
    for (int i = 0; i <= r; i++) wait_rank(k, i);
    memcpy(out, k.in[0].data(), n * tsize(t));
    for (int i = 1; i <= r; i++) reduce_into(out, k.in[i], n, t, op);
    return 0;
}
int MPI_Gather(const void *in, int n, MPI_Datatype t, void *out, int m, MPI_Datatype u, int root, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "gather", root, in, n * tsize(t));
    if (rank_in(cm) != root) { maybe_wait(k, cm); return 0; }
    wait_all(k, cm);
    for (size_t i = 0; i < cm.m.size(); i++) memcpy((char *)out + i * m * tsize(u), k.in[i].data(), std::min(k.in[i].size(), m * tsize(u)));
    return 0;
}
int MPI_Gatherv(const void *in, int n, MPI_Datatype t, void *out, const int *m, const int *d, MPI_Datatype u, int root, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "gatherv", root, in, n * tsize(t));
    if (rank_in(cm) != root) { maybe_wait(k, cm); return 0; }
    wait_all(k, cm);
    for (size_t i = 0; i < cm.m.size(); i++) memcpy((char *)out + d[i] * tsize(u), k.in[i].data(), std::min(k.in[i].size(), m[i] * tsize(u)));
    return 0;
}
int MPI_Allgather(const void *in, int n, MPI_Datatype t, void *out, int m, MPI_Datatype u, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "allgather", -1, in, n * tsize(t));
    wait_all(k, cm);
    for (size_t i = 0; i < cm.m.size(); i++) memcpy((char *)out + i * m * tsize(u), k.in[i].data(), std::min(k.in[i].size(), m * tsize(u)));
    return 0;
}
int MPI_Allgatherv(const void *in, int n, MPI_Datatype t, void *out, const int *m, const int *d, MPI_Datatype u, MPI_Comm c) {
    Comm &cm = comm(c);
    Coll &k = enter(c, "allgatherv", -1, in, n * tsize(t));
    wait_all(k, cm);
    for (size_t i = 0; i < cm.m.size(); i++) memcpy((char *)out + d[i] * tsize(u), k.in[i].data(), std::min(k.in[i].size(), m[i] * tsize(u)));
    return 0;
}
int MPI_Scatterv(const void *in, const int *n, const int *d, MPI_Datatype t, void *out, int m, MPI_Datatype u, int root, MPI_Comm c) {
    Comm &cm = comm(c);
    int r = rank_in(cm);
    std::string all;
    if (r == root) { size_t end = 0; for (size_t i = 0; i < cm.m.size(); i++) end = std::max(end, (d[i] + n[i]) * tsize(t)); all.assign((const char *)in, end); }
    Coll &k = enter(c, "scatterv", root, r == root ? all.data() : nullptr, all.size());
    if (r == root) { for (size_t i = 0; i < cm.m.size(); i++) { k.a[i] = d[i]; k.b[i] = n[i]; } }
    if (r != root) wait_rank(k, root);
    size_t off = k.a[r] * tsize(t), len = k.b[r] * tsize(t);
    memcpy(out, k.in[root].data() + off, std::min(len, m * tsize(u)));
    if (r == root) maybe_wait(k, cm);
    return 0;
}
}
