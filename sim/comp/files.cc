// P28: the file helpers, over a simulated disk with short, interrupted and failing operations and failing allocations.
#include "comp.h"
#include <map>
#include <string.h>
extern "C" {
#include "common_io.h"
void sim_free(void *);
}
void disk_mkdir(const std::string &);
namespace {
struct F { bool known = true, exists = false; std::string d; int busy = 0; };
std::map<std::string, F> g_f;
std::vector<std::string> *g_lines; // lines reported by read_text_file in this fiber's call
std::map<Fiber *, std::vector<std::string>> g_got;
void on_line(char *l) { g_got[S.cur].push_back(l); yield_now(); }
u64 faults() { u64 n = S.st.io_errors + S.st.enospc; return n; }
int open_files() { int n = 0; for (auto &e : S.cur->node->fds) n += e.used; return n; }
std::string content(u64 seed, i64 n, bool text) {
    std::string s;
    u64 x = h64(seed, 5, 9);
    for (i64 i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; char c = (char)(x >> 33); if (text && (c == '\n' || !c)) c = 'n'; s += c; }
    return s;
}
std::vector<std::string> lines_of(u64 seed, i64 n, i64 len) {
    std::vector<std::string> v;
    for (i64 i = 0; i < n; i++) { u64 h = h64(seed, i, 3); v.push_back(content(h, h % 5 == 0 ? 0 : len ? (i64)(h >> 8) % (len + 1) : 0, true)); }
    return v;
}
bool on_disk(const std::string &path, std::string &d) { return disk_read(path, d); }
std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return strf("%zu bytes instead of %zu, first difference at %zu", a.size(), b.size(), i);
}
std::vector<std::string> split(const std::string &d) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i < d.size()) {
        size_t e = d.find('\n', i);
        std::string l = d.substr(i, e == std::string::npos ? e : e - i);
        v.push_back(l.c_str()); // a line is handed over as a string
        if (e == std::string::npos) break;
        i = e + 1;
    }
    return v;
}
// after an operation that stores: success means stored
void stored(AppOp *o, F &f, const std::string &path, const std::string &want, bool ok, u64 f0, const char *what) {
    CHECKED();
    std::string d;
    bool there = on_disk(path, d);
    bool fault = faults() > f0 || alloc_failed();
    if (ok) {
        if (!there || d != want) { fail("not-stored", strf("%s reports success, but the file holds %s", what, there ? diff(d, want).c_str() : "nothing")); return; }
        f.known = f.exists = true;
        f.d = want;
        if (fault) probe("success_around_a_fault");
    }
    else {
        if (!fault) { fail("refused", strf("%s of %zu bytes fails although nothing is wrong with the disk", what, want.size())); return; }
        probe("failure_reported");
        f.known = false;
    }
}
void exec(AppOp *o) {
    std::string k = o->s1, path = strf("/run/pdc_data_f%d_%d", (int)o->a[0], (int)o->a[1]);
    F &f = g_f[path];
    u64 f0 = faults();
    int fds0 = open_files();
    if (k == "wtext") {
        auto v = lines_of(o->id, o->a[2], o->a[3]);
        std::string want;
        std::vector<char *> p;
        for (auto &l : v) { want += l + "\n"; p.push_back((char *)l.c_str()); }
        int r = write_text_file((char *)path.c_str(), p.data(), p.size());
        o->ret = r;
        stored(o, f, path, want, r == 0, f0, "write_text_file");
    }
    else if (k == "wbin") {
        std::string d = content(o->id, o->a[2], false);
        int r = write_binary_file((char *)path.c_str(), (void *)d.data(), d.size());
        o->ret = r;
        stored(o, f, path, d, r == 0, f0, "write_binary_file");
    }
    else if (k == "wbuf") { // open, write pieces, close
        FILE *fp = open_file((char *)path.c_str(), (char *)(o->a[4] ? IO_MODE_APPEND : IO_MODE_WRITE));
        if (o->a[4] && !f.known) { if (fp) close_file(fp); f.known = false; return; }
        if (!fp) { CHECKED(); if (faults() == f0) fail("open", "a file cannot be opened for writing although nothing is wrong with the disk"); f.known = false; return; }
        std::string want = o->a[4] && f.exists ? f.d : "";
        bool ok = true;
        for (i64 i = 0; i < o->a[3] && ok; i++) {
            std::string d = content(o->id * 100 + i, o->a[2], false);
            io_buffer_t b{(char *)d.data(), d.size()};
            want += d;
            ok = write_file(fp, &b) == 0;
        }
        if (close_file(fp)) ok = false;
        stored(o, f, path, want, ok, f0, "write_file and close_file");
    }
    else if (k == "update") {
        std::string d0;
        if (!f.known || !f.exists) return;
        d0 = f.d;
        u64 pos = d0.size() ? (u64)o->a[3] % (d0.size() + 1) : 0;
        std::string d = content(o->id, o->a[2], false);
        int r = update_binary_file((char *)path.c_str(), (void *)d.data(), d.size(), pos, d.size());
        o->ret = r;
        std::string want = d0;
        if (want.size() < pos + d.size()) want.resize(pos + d.size());
        memcpy(&want[pos], d.data(), d.size());
        stored(o, f, path, want, r == 0, f0, "update_binary_file");
    }
    else if (k == "rbin" || k == "rbuf" || k == "rline" || k == "rtext") {
        std::string d;
        bool there = on_disk(path, d);
        if (!there) {
            if (k == "rtext" || k == "rbin") { // a missing file is an error of the call, not the end of the program
                char c[8];
                int r = k == "rtext" ? read_text_file((char *)path.c_str(), on_line) : read_binary_file((char *)path.c_str(), c, 4);
                CHECKED();
                if (!r) fail("missing", "reading a file that does not exist reports success");
            }
            else { FILE *fp = open_file((char *)path.c_str(), (char *)IO_MODE_READ); CHECKED(); if (fp) fail("missing", "a file that does not exist can be opened"); }
            probe("missing_file");
        }
        else if (k == "rbin") {
            i64 n = o->a[2] == 0 ? (i64)d.size() : o->a[2] == 1 ? (i64)d.size() / 2 : (i64)d.size() + 1 + (i64)o->a[3] % 50;
            std::string b(n + 16, '\xa5');
            int r = read_binary_file((char *)path.c_str(), &b[0], n);
            CHECKED();
            bool fault = faults() > f0 || alloc_failed();
            if (n > (i64)d.size()) { if (!r) fail("short", strf("read_binary_file of %lld bytes reports success, the file has %zu", (long long)n, d.size())); }
            else if (r) { if (!fault) fail("refused", strf("read_binary_file of %lld bytes fails, the file has %zu", (long long)n, d.size())); else probe("failure_reported"); }
            else if (memcmp(b.data(), d.data(), n)) fail("wrong", "read_binary_file returns something else than the file holds");
            if (!S.violated) for (int i = 0; i < 16; i++) if (b[n + i] != '\xa5') { fail("overrun", "read_binary_file writes behind the buffer"); break; }
        }
        else if (k == "rbuf") {
            FILE *fp = open_file((char *)path.c_str(), (char *)IO_MODE_READ);
            if (!fp) { CHECKED(); fail("open", "an existing file cannot be opened"); return; }
            io_buffer_t b{nullptr, 0};
            for (int i = 0; i < 1 + (o->a[2] & 1) && !S.violated; i++) { // again: from the beginning
                u64 f1 = faults();
                int a0 = S.cur->fail_fired;
                int r = read_file(fp, &b);
                CHECKED();
                if (r) { if (faults() == f1 && S.cur->fail_fired == a0) fail("refused", "read_file fails although nothing is wrong"); else probe("failure_reported"); break; }
                if (b.size != d.size() || memcmp(b.buffer, d.data(), d.size())) { fail("wrong", strf("read_file: %s", diff(std::string(b.buffer, b.size), d).c_str())); break; }
                if (b.buffer[b.size]) { fail("wrong", "the buffer of read_file is not terminated"); break; }
                sim_free(b.buffer);
            }
            close_file(fp);
        }
        else if (k == "rline") {
            FILE *fp = open_file((char *)path.c_str(), (char *)IO_MODE_READ);
            if (!fp) { CHECKED(); fail("open", "an existing file cannot be opened"); return; }
            size_t cap = 2 + (size_t)o->a[2] % 200, pos = 0;
            std::string b(cap + 8, '\xa5');
            for (;;) {
                std::string want = d.substr(pos, cap - 1);
                size_t e = want.find('\n');
                if (e != std::string::npos) want.resize(e + 1);
                int r = read_line(fp, &b[0], cap);
                CHECKED();
                if (r) { if (!want.empty() && faults() == f0) fail("short", strf("read_line reports the end at %zu of %zu", pos, d.size())); break; }
                if (want.empty()) { fail("wrong", "read_line reports a line behind the end of the file"); break; }
                if (faults() > f0) break; // a chunk cut by a failing read: it will report the error next
                pos += want.size();
                std::string w = want;
                if (size_t z = w.find('\n'); z != std::string::npos) w.resize(z);
                if (strcmp(b.c_str(), w.c_str())) { fail("wrong", strf("read_line returns another line than the file holds at %zu", pos - want.size())); break; }
                for (size_t i = cap; i < cap + 8; i++) if (b[i] != '\xa5') { fail("overrun", "read_line writes behind the buffer"); break; }
                if (S.violated) break;
            }
            close_file(fp);
        }
        else {
            g_got[S.cur].clear();
            int r = read_text_file((char *)path.c_str(), on_line);
            CHECKED();
            bool fault = faults() > f0 || alloc_failed();
            auto &got = g_got[S.cur];
            auto want = split(d);
            if (r) { if (!fault) fail("refused", "read_text_file fails although nothing is wrong with the file"); else probe("failure_reported"); }
            else if (got.size() != want.size()) fail("wrong", strf("read_text_file reports success after %zu of %zu lines", got.size(), want.size()));
            else for (size_t i = 0; i < want.size() && !S.violated; i++) if (got[i] != want[i]) fail("wrong", strf("line %zu of read_text_file differs from the file's", i));
        }
    }
    if (!S.violated && open_files() != fds0 && PLAN->phases[0].ops.size() == 1) fail("left-open", strf("%s left its file open", k.c_str()));
    S.mix(faults());
}
void gen(Rng &r, Plan &p, int) {
    CFG.fill = (int)r.below(256);
    CFG.short_write = r.chance(0.5) ? (r.chance(0.5) ? 0.1 : 0.6) : 0;
    CFG.short_read = r.chance(0.5) ? (r.chance(0.5) ? 0.1 : 0.6) : 0;
    p.phases.resize(1);
    int nc = r.chance(0.6) ? 1 : 2 + (int)r.below(2);
    double pf = r.chance(0.3) ? 0.3 : 0;
    for (int c = 0; c < nc; c++) {
        int n = 3 + (int)r.below(14);
        for (int i = 0; i < n; i++) {
            AppOp &o = p.add(0, c, COMP);
            static const char *K[] = {"wtext", "wtext", "wbin", "wbin", "wbuf", "update", "rbin", "rbuf", "rline", "rtext", "rtext"};
            sets(o.s1, K[r.below(11)]);
            o.a[0] = c;
            o.a[1] = r.below(2);
            std::string k = o.s1;
            if (k == "wtext") { o.a[2] = r.below(12); o.a[3] = r.chance(0.1) ? 12000 : r.below(r.chance(0.5) ? 10 : 300); }
            else if (k == "wbin") o.a[2] = r.chance(0.1) ? 0 : r.below(r.chance(0.5) ? 50 : 20000);
            else if (k == "wbuf") { o.a[2] = r.below(r.chance(0.5) ? 50 : 6000); o.a[3] = r.below(5); o.a[4] = r.chance(0.3); }
            else if (k == "update") { o.a[2] = r.below(r.chance(0.5) ? 50 : 6000); o.a[3] = r.below(30000); }
            else if (k == "rbin") { o.a[2] = r.below(3); o.a[3] = r.below(1000); }
            else if (k == "rline") o.a[2] = r.below(200);
            else o.a[2] = r.below(4);
            if (r.chance(pf)) o.a[39] = 1 + r.below(3);
        }
    }
    if (r.chance(0.6)) {
        int nf = 1 + (int)r.below(3);
        for (int k = 0; k < nf; k++) {
            Fault f;
            f.id = p.next_id++;
            f.kind = "disk";
            f.disk.match = "pdc_data";
            static const char *K[] = {"write", "write", "read", "create", "truncate"};
            f.disk.kind = K[r.below(5)];
            f.disk.err = f.disk.kind == "read" || r.chance(0.5) ? "EIO" : "ENOSPC";
            f.disk.nth = r.below(r.chance(0.5) ? 4 : 25);
            f.disk.keep = r.chance(0.5) ? -1 : (i64)r.below(200);
            f.disk.count = r.chance(0.5) ? 1 : 1 + (int)r.below(6);
            p.phases[0].faults.push_back(f);
        }
    }
}
void run(Rng &) {
    DISK.plans.clear();
    for (auto &f : PLAN->phases[0].faults) if (!DROP.count(f.id)) DISK.plans.push_back(f.disk);
    disk_mkdir("/run");
    comp_run(nullptr, exec, nullptr, "file helpers");
}
Reg_ r28({"P28", gen, nullptr, run, 1, nullptr});
}
