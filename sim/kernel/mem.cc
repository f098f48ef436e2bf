// Memory of simulated processes: one bump arena per process at a fixed address, never reused within a run, with
// red zones and poisoning, so that a use after free or an overrun has the same effect in every execution of a seed.
#include "sim.h"
#include <sys/mman.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>

static const u64 ARENA_BASE = 0x200000000000ull, ARENA_SIZE = 0x80000000ull;
static const u32 LIVE = 0x4c495645, FREED = 0x46524545;
struct Hdr { u32 state, align; u64 size; u64 pc; u64 guard; }; // pc: who allocated it, then who freed it
static const u64 GUARD = 0xfeedfacecafebeefull;
#include <dlfcn.h>
static std::string sym(u64 pc) {
    Dl_info d;
    if (pc && dladdr((void *)pc, &d) && d.dli_sname) return d.dli_sname;
    return "?";
}

static void arena_init(Node *n) {
    u64 a = ARENA_BASE + (u64)n->id * ARENA_SIZE;
    void *p = mmap((void *)a, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) { perror("arena"); _exit(3); }
    n->arena = n->arena_cur = (char *)p;
    n->arena_end = n->arena + ARENA_SIZE;
}
static Node *owner_of(const void *p) {
    u64 a = (u64)p;
    if (a < ARENA_BASE) return nullptr;
    u64 id = (a - ARENA_BASE) / ARENA_SIZE;
    return id < S.nodes.size() && S.nodes[id]->arena ? S.nodes[id] : nullptr;
}
void *node_alloc_pc(Node *n, size_t sz, u64 pc) {
    if (!n->arena) arena_init(n);
    size_t need = sizeof(Hdr) + ((sz + 15) & ~15ull) + 16;
    if (n->arena_cur + need > n->arena_end || sz > ARENA_SIZE) return nullptr;
    Hdr *h = (Hdr *)n->arena_cur;
    n->arena_cur += need;
    h->state = LIVE;
    h->size = sz;
    h->pc = pc;
    h->guard = GUARD;
    char *p = (char *)(h + 1);
    memset(p + sz, 0xA5, need - sizeof(Hdr) - sz);
    return p;
}
static bool check_block(Hdr *h, std::string *why) {
    char *p = (char *)(h + 1);
    size_t tail = ((h->size + 15) & ~15ull) + 16 - h->size;
    if (h->guard != GUARD || (h->state != LIVE && h->state != FREED)) { *why = "heap block header overwritten"; return false; }
    for (size_t i = 0; i < tail; i++)
        if ((unsigned char)p[h->size + i] != 0xA5) {
            char b[300];
            snprintf(b, sizeof b, "write %zu bytes past the end of a %zu-byte heap block %s by %s", i + 1, (size_t)h->size, h->state == LIVE ? "allocated" : "freed", sym(h->pc).c_str());
            *why = b;
            return false;
        }
    if (h->state == FREED)
        for (size_t i = 0; i < h->size; i++)
            if ((unsigned char)p[i] != 0xDD) {
                char b[300];
                snprintf(b, sizeof b, "write at offset %zu of a %zu-byte heap block after it was freed by %s", i, (size_t)h->size, sym(h->pc).c_str());
                *why = b;
                return false;
            }
    return true;
}
void *node_alloc(Node *n, size_t sz) { return node_alloc_pc(n, sz, 0); }
bool mem_check_all(std::string *why) {
    for (Node *n : S.nodes) {
        char *c = n->arena;
        while (c && c < n->arena_cur) {
            Hdr *h = (Hdr *)c;
            if (!check_block(h, why)) { *why = n->name() + ": " + *why; return false; }
            c += sizeof(Hdr) + ((h->size + 15) & ~15ull) + 16;
        }
    }
    return true;
}
void mem_fail(const char *what) {
    Node *n = me();
    fail("memory", std::string(n ? n->name() : "?") + ": " + what);
    if (S.cur) yield_now(); // the run is stopping; never scheduled again
}
bool fail_here(size_t sz) { // the operation asked for its n-th allocation, or its first large one, to fail
    Fiber *f = S.cur;
    if (!f || !f->fail_nth) return false;
    if (f->fail_nth < 0) {
        if (sz <= (size_t)-f->fail_nth) return false;
        f->fail_nth = 0;
    }
    else if (--f->fail_nth) return false;
    f->fail_fired++;
    S.st.malloc_fails++;
    return true;
}
bool freed_memory(const void *p) { // simulated locks do not touch the bytes of the object, so they stay poisoned
    return owner_of(p) && *(const u64 *)p == 0xDDDDDDDDDDDDDDDDull;
}
static bool inject_fail(size_t sz) {
    if (fail_here(sz)) return true;
    if (CFG.malloc_fail <= 0 || !me() || !me()->server) return false;
    if (!chance(CFG.malloc_fail, "malloc")) return false;
    S.st.malloc_fails++;
    return true;
}
extern "C" {
void sim_free(void *p);
void *sim_malloc(size_t sz) {
    Node *n = me();
    if (!n) return malloc(sz);
    point(5);
    if (inject_fail(sz)) { errno = ENOMEM; return nullptr; }
    char *p = (char *)node_alloc_pc(n, sz, (u64)__builtin_return_address(0));
    if (p) memset(p, CFG.fill, sz > (1 << 20) ? (1 << 20) : sz);
    else errno = ENOMEM;
    return p;
}
void *sim_calloc(size_t a, size_t b) {
    Node *n = me();
    if (!n) return calloc(a, b);
    if (b && a > ~0ull / b) return nullptr;
    if (inject_fail(a * b)) { errno = ENOMEM; return nullptr; }
    return node_alloc_pc(n, a * b, (u64)__builtin_return_address(0)); // fresh pages are zero and never reused
}
void *sim_realloc(void *p, size_t sz) {
    Node *n = me();
    if (!n) return realloc(p, sz);
    if (!p) return sim_malloc(sz);
    if (sz == 0) { sim_free(p); return nullptr; }
    if (!owner_of(p)) { mem_fail("realloc of a pointer that is not from the heap"); return nullptr; }
    Hdr *h = (Hdr *)p - 1;
    std::string why;
    if (!check_block(h, &why)) { mem_fail(why.c_str()); return nullptr; }
    if (h->state != LIVE) { mem_fail("realloc of a freed block"); return nullptr; }
    if (inject_fail(sz)) { errno = ENOMEM; return nullptr; }
    char *q = (char *)node_alloc_pc(n, sz, (u64)__builtin_return_address(0));
    if (!q) return nullptr;
    memcpy(q, p, h->size < sz ? h->size : sz);
    if (sz > h->size) memset(q + h->size, CFG.fill, sz - h->size);
    h->state = FREED;
    h->pc = (u64)__builtin_return_address(0);
    memset(p, 0xDD, h->size);
    return q;
}
void sim_free(void *p) {
    if (!p) return;
    Node *n = me();
    Node *o = owner_of(p);
    if (!n && !o) { free(p); return; }
    if (!o) { mem_fail("free of a pointer that is not from the heap"); return; }
    Hdr *h = (Hdr *)p - 1;
    std::string why;
    if (h->guard == GUARD && h->state == FREED) { mem_fail(("double free by " + sym((u64)__builtin_return_address(0)) + ", first freed by " + sym(h->pc)).c_str()); return; }
    if (!check_block(h, &why)) { mem_fail(why.c_str()); return; }
    h->state = FREED;
    h->pc = (u64)__builtin_return_address(0);
    memset(p, 0xDD, h->size);
    point(5);
}
size_t sim_malloc_usable_size(void *p) {
    if (!p) return 0;
    if (!owner_of(p)) return 0;
    return ((Hdr *)p - 1)->size;
}
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)sim_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *sim_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    char *p = (char *)sim_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
int sim_posix_memalign(void **out, size_t al, size_t sz) {
    char *p = (char *)sim_malloc(sz); // 16-byte alignment is all the code under test uses
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *sim_aligned_alloc(size_t al, size_t sz) { return sim_malloc(sz); }
}
