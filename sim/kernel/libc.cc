// System interface of simulated processes: files, standard I/O, threads, clocks, environment.
#include "sim.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <algorithm>

Disk DISK;

// ------------------------------------------------------------------ disk
static std::string norm(const char *path) {
    std::string p = path ? path : "";
    if (p.empty() || p[0] != '/') p = (me() ? me()->cwd : std::string("/")) + "/" + p;
    std::string o;
    size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') i++;
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string c = p.substr(i, j - i);
        if (c == "..") { size_t k = o.rfind('/'); o = k == std::string::npos ? "" : o.substr(0, k); }
        else if (!c.empty() && c != ".") o += "/" + c;
        i = j;
    }
    return o.empty() ? "/" : o;
}
static std::string dirof(const std::string &p) { size_t k = p.rfind('/'); return k == 0 || k == std::string::npos ? "/" : p.substr(0, k); }
static int new_inode(bool dir) {
    DISK.inodes.push_back(Inode{new std::vector<uint8_t>, dir, 1, nullptr});
    return (int)DISK.inodes.size() - 1;
}
static int lookup(const std::string &p) { auto it = DISK.names.find(p); return it == DISK.names.end() ? -1 : it->second; }
static void disk_init() { if (DISK.names.empty()) { DISK.names["/"] = new_inode(true); DISK.names["/tmp"] = new_inode(true); } }
static void mkdir_p(const std::string &p) {
    disk_init();
    if (lookup(p) >= 0) return;
    mkdir_p(dirof(p));
    DISK.names[p] = new_inode(true);
}
bool disk_read(const std::string &path, std::string &out) {
    int i = lookup(path);
    if (i < 0) return false;
    out.assign(DISK.inodes[i].data->begin(), DISK.inodes[i].data->end());
    return true;
}
void disk_write(const std::string &path, const std::string &d) {
    mkdir_p(dirof(path));
    int i = lookup(path);
    if (i < 0) DISK.names[path] = i = new_inode(false);
    DISK.inodes[i].data->assign(d.begin(), d.end());
}
void disk_mkdir(const std::string &p) { mkdir_p(p); }

// Every operation that changes the disk passes here first. Returns the number of bytes that may be written
// (len = all), or -1 with errno set. A crash applies a prefix, then stops the process.
struct Mut { i64 allow; int err; bool crash; };
static Mut mutate(const char *kind, const std::string &path, i64 len) {
    Node *n = me();
    Mut m{len, 0, false};
    DISK.mutops++;
    S.st.io_ops++;
    if (n) n->io_ops++;
    S.mix(len * 5 + 1);
    for (auto &p : DISK.plans) {
        if (p.kind != "any" && p.kind != kind) continue;
        if (!p.match.empty() && path.find(p.match) == std::string::npos) continue;
        i64 k = p.seen++;
        if (k < p.nth || k >= p.nth + p.count) continue;
        p.fired++;
        p.last = op_seq();
        if (p.err == "EIO") { m.err = EIO; m.allow = p.keep >= 0 ? std::min<i64>(p.keep, len) : 0; S.st.io_errors++; }
        else if (p.err == "ENOSPC") { m.err = ENOSPC; m.allow = p.keep >= 0 ? std::min<i64>(p.keep, len) : 0; S.st.enospc++; }
        else if (p.err == "EINTR") { m.err = EINTR; m.allow = 0; S.st.eintrs++; }
        else if (p.err == "short") { if (len > 1) { m.allow = std::max<i64>(1, std::min<i64>(p.keep > 0 ? p.keep : len / 2, len - 1)); S.st.short_writes++; } }
        simlog("disk fault %s at %s %s len %lld -> allow %lld", p.err.c_str(), kind, path.c_str(), (long long)len, (long long)m.allow);
    }
    if (DISK.crash_armed && n && n->server && (DISK.crash_rank < 0 || n->rank == DISK.crash_rank) &&
        (DISK.crash_match.empty() || path.find(DISK.crash_match) != std::string::npos)) {
        if (DISK.crash_seen++ == DISK.crash_at) {
            m.crash = true;
            if (len > 0) { // torn write: any prefix
                m.allow = (i64)choose(len + 1, "torn");
                if (m.allow && m.allow < len) S.st.torn++;
            }
            simlog("CRASH at %s %s, %lld of %lld bytes", kind, path.c_str(), (long long)m.allow, (long long)len);
        }
    }
    if (!strcmp(kind, "write") && n && n->server && !m.err && !m.crash && len > 1 && path.find(CFG.io_match) != std::string::npos) {
        if (chance(CFG.short_write, "short write")) { m.allow = 1 + (i64)choose(len - 1, "short len"); S.st.short_writes++; }
        else if (chance(CFG.eintr, "eintr")) { m.allow = 0; m.err = EINTR; S.st.eintrs++; }
    }
    return m;
}
static void crash_now(const char *why) {
    DISK.crashed = true;
    DISK.crash_armed = false;
    Node *n = me();
    S.st.crashes++;
    kill_node(n, why);
    fiber_exit();
}
static std::string hexs(const void *b, i64 n) { std::string r; for (i64 i = 0; i < n && i < 24; i++) { char t[4]; snprintf(t, 4, "%02x", ((const uint8_t *)b)[i]); r += t; } return r; }
static i64 do_write(int ino, u64 pos, const void *buf, i64 len, const std::string &path, const char *kind = "write") {
    point(30);
    Mut m = mutate(kind, path, len);
    i64 allow = m.allow;
    auto &d = *DISK.inodes[ino].data;
    if (allow > 0 && pos + allow > d.size()) {
        u64 grow = pos + allow - d.size();
        if (DISK.used + grow > DISK.quota) {
            u64 can = DISK.quota > DISK.used ? DISK.quota - DISK.used : 0;
            i64 room = (i64)(d.size() + can) - (i64)pos;
            if (room <= 0) { if (m.crash) crash_now("crash during disk operation"); S.st.enospc++; errno = ENOSPC; return -1; }
            allow = std::min<i64>(allow, room);
            S.st.enospc++;
        }
    }
    if (allow > 0) {
        if (pos + allow > d.size()) { DISK.used += pos + allow - d.size(); d.resize(pos + allow, 0); }
        memcpy(d.data() + pos, buf, allow);
    }
    simlog("write %s at %llu, %lld of %lld bytes: %s", path.c_str(), (unsigned long long)pos, (long long)allow, (long long)len, hexs(buf, len).c_str());
    if (m.crash) crash_now("crash during disk operation");
    if (m.err && allow == 0) { errno = m.err; return -1; }
    return allow;
}
static FdEnt *fdent(int fd) {
    Node *n = me();
    fd -= 1000;
    if (!n || fd < 0 || fd >= (int)n->fds.size() || !n->fds[fd].used) { errno = EBADF; return nullptr; }
    return &n->fds[fd];
}
static int do_open(const char *path, int flags) {
    Node *n = me();
    point(30);
    std::string p = norm(path);
    int ino = lookup(p);
    simlog("open %s %x", p.c_str(), flags);
    if (ino < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        int d = lookup(dirof(p));
        if (d < 0 || !DISK.inodes[d].dir) { errno = ENOENT; return -1; }
        Mut m = mutate("create", p, 0);
        if (m.crash) crash_now("crash during disk operation");
        if (m.err) { errno = m.err; return -1; }
        DISK.names[p] = ino = new_inode(false);
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (DISK.inodes[ino].dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if (flags & O_TRUNC) {
            Mut m = mutate("truncate", p, 0);
            if (m.crash) { if (choose(2, "torn trunc")) { DISK.used -= DISK.inodes[ino].data->size(); DISK.inodes[ino].data->clear(); } crash_now("crash during disk operation"); }
            if (m.err) { errno = m.err; return -1; }
            DISK.used -= DISK.inodes[ino].data->size();
            DISK.inodes[ino].data->clear();
        }
    }
    int k = -1;
    for (size_t i = 0; i < n->fds.size(); i++) if (!n->fds[i].used) { k = (int)i; break; }
    if (k < 0) { if (n->fds.size() > 4000) { errno = EMFILE; return -1; } n->fds.push_back(FdEnt()); k = (int)n->fds.size() - 1; }
    FdEnt e;
    e.used = true; e.inode = ino; e.pos = 0; e.flags = flags; e.path = p;
    n->fds[k] = e;
    return 1000 + k;
}

struct SimFile {
    u64 magic = 0x51f11e;
    Node *node;
    int ino;
    std::string path;
    bool rd = false, wr = false, app = false, err = false, eof = false, open = true;
    u64 pos = 0;        // logical position (including buffered data)
    u64 wpos = 0;       // where the write buffer starts
    std::vector<uint8_t> wbuf;
    int fd = -1;
};
static bool flush_file(SimFile *f) {
    while (!f->wbuf.empty()) {
        i64 r = do_write(f->ino, f->wpos, f->wbuf.data(), (i64)f->wbuf.size(), f->path, "write");
        if (r < 0) { f->err = true; f->wbuf.clear(); return false; } // like glibc: the error is reported, the data lost
        f->wpos += r;
        f->wbuf.erase(f->wbuf.begin(), f->wbuf.begin() + r);
    }
    return true;
}
static bool is_std(void *f) { return f == (void *)stdout || f == (void *)stderr || f == (void *)stdin; }

extern "C" {
int sim_open(const char *path, int flags, ...) { return do_open(path, flags); }
int sim_open64(const char *path, int flags, ...) { return do_open(path, flags); }
int sim_openat(int d, const char *path, int flags, ...) { return do_open(path, flags); }
int sim_creat(const char *path, mode_t m) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd) { point(10); FdEnt *e = fdent(fd); if (!e) return -1; e->used = false; return 0; }
i64 sim_lseek(int fd, i64 off, int wh) {
    FdEnt *e = fdent(fd);
    if (!e) return -1;
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)e->pos : (i64)DISK.inodes[e->inode].data->size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    e->pos = base + off;
    point(10);
    return e->pos;
}
i64 sim_lseek64(int fd, i64 off, int wh) { return sim_lseek(fd, off, wh); }
i64 sim_pwrite(int fd, const void *b, size_t len, i64 off) {
    FdEnt *e = fdent(fd);
    if (!e) return -1;
    if ((e->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    return do_write(e->inode, off, b, (i64)len, e->path);
}
i64 sim_pwrite64(int fd, const void *b, size_t len, i64 off) { return sim_pwrite(fd, b, len, off); }
i64 sim_write(int fd, const void *b, size_t len) {
    if (fd == 1 || fd == 2) return (i64)len;
    FdEnt *e = fdent(fd);
    if (!e) return -1;
    if ((e->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    int ino = e->inode;
    if (e->flags & O_APPEND) e->pos = DISK.inodes[ino].data->size();
    // the position belongs to the open file: a preemption inside do_write may see it moved, as in a real kernel
    i64 r = do_write(ino, e->pos, b, (i64)len, e->path);
    e = fdent(fd);
    if (r > 0 && e) e->pos += r;
    return r;
}
static i64 do_read(int ino, u64 pos, void *b, size_t len, const std::string &path) {
    point(30);
    S.st.io_ops++;
    auto &d = *DISK.inodes[ino].data;
    for (auto &p : DISK.plans) {
        if (p.kind != "read" || (!p.match.empty() && path.find(p.match) == std::string::npos)) continue;
        i64 k = p.seen++;
        if (k < p.nth || k >= p.nth + p.count) continue;
        p.fired++;
        S.st.io_errors++;
        simlog("disk fault EIO at read %s", path.c_str());
        errno = EIO;
        return -1;
    }
    if (pos >= d.size()) return 0;
    size_t n = std::min<u64>(len, d.size() - pos);
    Node *nd = me();
    if (nd && nd->server && n > 1 && path.find(CFG.io_match) != std::string::npos) {
        if (chance(CFG.short_read, "short read")) { n = 1 + choose(n - 1, "short len"); S.st.short_reads++; }
        else if (chance(CFG.eintr, "eintr")) { errno = EINTR; S.st.eintrs++; return -1; }
    }
    memcpy(b, d.data() + pos, n);
    simlog("read inode %d at %llu, %llu bytes: %s", ino, (unsigned long long)pos, (unsigned long long)n, hexs(b, n).c_str());
    return (i64)n;
}
i64 sim_pread(int fd, void *b, size_t len, i64 off) { FdEnt *e = fdent(fd); if (!e) return -1; if ((e->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; } return do_read(e->inode, off, b, len, e->path); }
i64 sim_pread64(int fd, void *b, size_t len, i64 off) { return sim_pread(fd, b, len, off); }
i64 sim_read(int fd, void *b, size_t len) {
    FdEnt *e = fdent(fd);
    if (!e) return -1;
    if ((e->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    i64 r = do_read(e->inode, e->pos, b, len, e->path);
    if (r > 0) e->pos += r;
    return r;
}
i64 sim_writev(int fd, const struct iovec *v, int n) { i64 t = 0; for (int i = 0; i < n; i++) { i64 r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
i64 sim_readv(int fd, const struct iovec *v, int n) { i64 t = 0; for (int i = 0; i < n; i++) { i64 r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
static int trunc_ino(int ino, i64 len, const std::string &p) {
    Mut m = mutate("truncate", p, 0);
    if (m.crash) crash_now("crash during disk operation");
    if (m.err) { errno = m.err; return -1; }
    auto &d = *DISK.inodes[ino].data;
    DISK.used += len - (i64)d.size();
    d.resize(len, 0);
    return 0;
}
int sim_ftruncate(int fd, i64 len) { FdEnt *e = fdent(fd); if (!e) return -1; return trunc_ino(e->inode, len, e->path); }
int sim_truncate(const char *p, i64 len) { std::string q = norm(p); int i = lookup(q); if (i < 0) { errno = ENOENT; return -1; } return trunc_ino(i, len, q); }
int sim_fsync(int fd) { point(30); return fdent(fd) ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync(void) {}
static void fill_stat(int ino, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_ino = ino + 1;
    st->st_nlink = 1;
    st->st_size = DISK.inodes[ino].data->size();
    st->st_blksize = 4096;
    st->st_mode = DISK.inodes[ino].dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
}
int sim_stat(const char *p, struct stat *st) { point(10); int i = lookup(norm(p)); if (i < 0) { errno = ENOENT; return -1; } fill_stat(i, st); return 0; }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) { FdEnt *e = fdent(fd); if (!e) return -1; fill_stat(e->inode, st); return 0; }
int sim_access(const char *p, int m) { point(10); if (lookup(norm(p)) < 0) { errno = ENOENT; return -1; } return 0; }
int sim_mkdir(const char *p, mode_t m) {
    std::string q = norm(p);
    disk_init();
    if (lookup(q) >= 0) { errno = EEXIST; return -1; }
    if (lookup(dirof(q)) < 0) { errno = ENOENT; return -1; }
    Mut mu = mutate("mkdir", q, 0);
    if (mu.crash) crash_now("crash during disk operation");
    if (mu.err) { errno = mu.err; return -1; }
    DISK.names[q] = new_inode(true);
    return 0;
}
static int do_unlink(const std::string &q) {
    int i = lookup(q);
    if (i < 0) { errno = ENOENT; return -1; }
    Mut m = mutate("unlink", q, 0);
    if (m.crash) { if (choose(2, "unlink done")) DISK.names.erase(q); crash_now("crash during disk operation"); }
    if (m.err) { errno = m.err; return -1; }
    DISK.used -= DISK.inodes[i].data->size();
    DISK.names.erase(q);
    return 0;
}
int sim_unlink(const char *p) { point(30); return do_unlink(norm(p)); }
int sim_remove(const char *p) { point(30); return do_unlink(norm(p)); }
int sim_rmdir(const char *p) { return do_unlink(norm(p)); }
static int do_rename(const std::string &x, const std::string &y) {
    int i = lookup(x);
    if (i < 0 || lookup(dirof(y)) < 0) { errno = ENOENT; return -1; }
    Mut m = mutate("rename", y, 0);
    if (m.err) { errno = m.err; return -1; }
    if (!m.crash || choose(2, "rename done")) { DISK.names[y] = i; DISK.names.erase(x); }
    if (m.crash) crash_now("crash during disk operation");
    return 0;
}
int sim_rename(const char *a, const char *b) { point(30); return do_rename(norm(a), norm(b)); }
int sim_link(const char *a, const char *b) { std::string x = norm(a), y = norm(b); int i = lookup(x); if (i < 0) { errno = ENOENT; return -1; } if (lookup(y) >= 0) { errno = EEXIST; return -1; } DISK.names[y] = i; return 0; }
int sim_chdir(const char *p) { std::string q = norm(p); if (lookup(q) < 0) { errno = ENOENT; return -1; } me()->cwd = q; return 0; }
char *sim_getcwd(char *b, size_t n) { std::string c = me()->cwd; if (c.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, c.c_str()); return b; }
int sim_system(const char *cmd) {
    point(30);
    std::vector<std::string> w;
    std::string cur;
    for (const char *c = cmd; c && *c; c++) { if (*c == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += *c; }
    if (!cur.empty()) w.push_back(cur);
    simlog("system: %s", cmd);
    if (w.empty()) return 0;
    if (w[0] == "mkdir") { for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-') mkdir_p(norm(w[i].c_str())); return 0; }
    if (w[0] == "mv" && w.size() >= 3) {
        std::string a = norm(w[w.size() - 2].c_str()), b = norm(w.back().c_str());
        int i = lookup(a);
        if (i < 0) return 256;
        // /tmp is another file system: mv copies, in pieces, then removes
        if ((a.compare(0, 5, "/tmp/") == 0) != (b.compare(0, 5, "/tmp/") == 0)) {
            int j = lookup(b);
            if (j >= 0) { Mut m = mutate("truncate", b, 0); if (m.crash) crash_now("crash during disk operation"); DISK.inodes[j].data->clear(); }
            else { if (lookup(dirof(b)) < 0) return 256; DISK.names[b] = j = new_inode(false); }
            std::vector<uint8_t> d = *DISK.inodes[i].data;
            u64 pos = 0;
            while (pos < d.size()) {
                i64 r = do_write(j, pos, d.data() + pos, std::min<u64>(65536, d.size() - pos), b);
                if (r <= 0) { if (errno == EINTR) continue; return 256; }
                pos += r;
            }
            return do_unlink(a) ? 256 : 0;
        }
        return do_rename(a, b) ? 256 : 0;
    }
    if (w[0] == "rm") { for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-') { std::string q = norm(w[i].c_str()); if (lookup(q) >= 0) do_unlink(q); } return 0; }
    return 0;
}

// ------------------------------------------------------------------ stdio
void *sim_fopen(const char *path, const char *mode) {
    if (!strchr("rwa", mode[0])) { errno = EINVAL; return nullptr; }
    bool plus = strchr(mode, '+');
    int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND));
    int fd = do_open(path, fl);
    if (fd < 0) return nullptr;
    SimFile *f = new SimFile;
    f->node = me();
    f->ino = fdent(fd)->inode;
    f->path = fdent(fd)->path;
    f->fd = fd;
    f->rd = mode[0] == 'r' || plus;
    f->wr = mode[0] != 'r' || plus;
    f->app = mode[0] == 'a';
    if (f->app) f->pos = f->wpos = DISK.inodes[f->ino].data->size();
    me()->files.push_back(f);
    return f;
}
void *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_fflush(void *fp) {
    if (!fp || is_std(fp)) return 0;
    SimFile *f = (SimFile *)fp;
    point(10);
    return f->wr && !flush_file(f) ? -1 : 0;
}
int sim_fclose(void *fp) {
    if (is_std(fp)) return 0;
    SimFile *f = (SimFile *)fp;
    if (f->magic != 0x51f11e || !f->open) { fail("memory", "fclose of a closed file"); yield_now(); return -1; }
    bool ok = !f->wr || flush_file(f);
    f->open = false;
    sim_close(f->fd);
    return ok ? 0 : -1;
}
size_t sim_fwrite(const void *b, size_t sz, size_t n, void *fp) {
    if (is_std(fp)) return n;
    SimFile *f = (SimFile *)fp;
    size_t tot = sz * n;
    if (!tot) return 0;
    if (!f->wr) { f->err = true; errno = EBADF; return 0; }
    if (f->wbuf.empty()) f->wpos = f->pos;
    f->wbuf.insert(f->wbuf.end(), (const uint8_t *)b, (const uint8_t *)b + tot);
    f->pos += tot;
    if (f->wbuf.size() >= 4096 && !flush_file(f)) return 0;
    return n;
}
size_t sim_fread(void *b, size_t sz, size_t n, void *fp) {
    if (is_std(fp)) return 0;
    SimFile *f = (SimFile *)fp;
    if (f->wr) flush_file(f);
    size_t tot = sz * n, got = 0;
    if (!tot) return 0;
    while (got < tot) {
        i64 r = do_read(f->ino, f->pos, (char *)b + got, tot - got, f->path);
        if (r < 0) { if (errno == EINTR) continue; f->err = true; break; }
        if (r == 0) { f->eof = true; break; }
        got += r;
        f->pos += r;
    }
    return got / sz;
}
int sim_fgetc(void *fp) { unsigned char c; return sim_fread(&c, 1, 1, fp) == 1 ? c : -1; }
int sim_getc(void *fp) { return sim_fgetc(fp); }
char *sim_fgets(char *b, int n, void *fp) {
    int i = 0;
    while (i < n - 1) { int c = sim_fgetc(fp); if (c < 0) { if (((SimFile *)fp)->err) return nullptr; break; } b[i++] = (char)c; if (c == '\n') break; }
    if (!i) return nullptr;
    b[i] = 0;
    return b;
}
void *sim_malloc(size_t);
void *sim_realloc(void *, size_t);
i64 sim_getline(char **lp, size_t *np, void *fp) {
    std::string s;
    for (;;) { int c = sim_fgetc(fp); if (c < 0) break; s += (char)c; if (c == '\n') break; }
    if (s.empty()) return -1;
    if (!*lp || *np < s.size() + 1) {
        char *q = (char *)sim_realloc(*lp, s.size() + 1);
        if (!q) { ((SimFile *)fp)->eof = false; errno = ENOMEM; return -1; } // the library meets this before it looks for more data
        *lp = q;
        *np = s.size() + 1;
    }
    memcpy(*lp, s.c_str(), s.size() + 1);
    return s.size();
}
int sim_fseek(void *fp, long off, int wh) {
    SimFile *f = (SimFile *)fp;
    if (f->wr) flush_file(f);
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)f->pos : (i64)DISK.inodes[f->ino].data->size();
    if (base + off < 0) { errno = EINVAL; return -1; }
    f->pos = base + off;
    f->eof = false;
    return 0;
}
int sim_fseeko(void *fp, i64 off, int wh) { return sim_fseek(fp, off, wh); }
long sim_ftell(void *fp) { return (long)((SimFile *)fp)->pos; }
i64 sim_ftello(void *fp) { return (i64)((SimFile *)fp)->pos; }
void sim_rewind(void *fp) { sim_fseek(fp, 0, SEEK_SET); ((SimFile *)fp)->err = false; }
int sim_fileno(void *fp) { if (fp == stdout) return 1; if (fp == stderr) return 2; if (fp == stdin) return 0; return ((SimFile *)fp)->fd; }
int sim_feof(void *fp) { return is_std(fp) ? 0 : ((SimFile *)fp)->eof; }
int sim_ferror(void *fp) { return is_std(fp) ? 0 : ((SimFile *)fp)->err; }
void sim_clearerr(void *fp) { if (!is_std(fp)) ((SimFile *)fp)->err = ((SimFile *)fp)->eof = false; }
int sim_setvbuf(void *fp, char *b, int m, size_t s) { return 0; }
static int out(void *fp, const char *fmt, va_list ap) {
    if (is_std(fp)) {
        if (S.verbose) { char b[2048]; vsnprintf(b, sizeof b, fmt, ap); size_t n = strlen(b); while (n && b[n - 1] == '\n') b[--n] = 0; simlog("| %s", b); }
        return 1;
    }
    va_list ap2;
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if (n <= 0) return n;
    std::string b(n + 1, 0);
    vsnprintf(&b[0], n + 1, fmt, ap);
    return sim_fwrite(b.data(), 1, n, fp) == (size_t)n ? n : -1;
}
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = out(stdout, fmt, ap); va_end(ap); return r; }
int sim_fprintf(void *fp, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = out(fp, fmt, ap); va_end(ap); return r; }
int sim_vfprintf(void *fp, const char *fmt, va_list ap) { return out(fp, fmt, ap); }
int sim_vprintf(const char *fmt, va_list ap) { return out(stdout, fmt, ap); }
int sim_puts(const char *s) { return sim_printf("%s", s); }
int sim_putchar(int c) { return c; }
int sim_fputc(int c, void *fp) { if (!is_std(fp)) { unsigned char x = c; return sim_fwrite(&x, 1, 1, fp) == 1 ? c : -1; } return c; }
int sim_putc(int c, void *fp) { return sim_fputc(c, fp); }
int sim_fputs(const char *s, void *fp) { if (!is_std(fp)) return sim_fwrite(s, 1, strlen(s), fp) == strlen(s) ? 1 : -1; return sim_printf("%s", s); }
void sim_perror(const char *s) { simlog("| %s: %s", s, strerror(errno)); }

// ------------------------------------------------------------------ shared memory and mappings
int sim_shm_open(const char *name, int fl, mode_t m) { mkdir_p("/dev/shm"); return do_open((std::string("/dev/shm/") + name).c_str(), fl); }
int sim_shm_unlink(const char *name) { return do_unlink(norm((std::string("/dev/shm/") + name).c_str())); }
void *sim_calloc(size_t, size_t);
void *sim_mmap(void *a, size_t len, int prot, int fl, int fd, i64 off) {
    if (fd < 0) { void *p = node_alloc(me(), len + 4096); return p ? p : MAP_FAILED; }
    FdEnt *e = fdent(fd);
    if (!e) return MAP_FAILED;
    auto &d = *DISK.inodes[e->inode].data;
    if (d.size() < off + len) d.resize(off + len, 0);
    return d.data() + off; // shared mapping; the file is not resized afterwards in the code under test
}
int sim_munmap(void *a, size_t len) { return 0; }
int sim_msync(void *a, size_t len, int f) { return 0; }

// ------------------------------------------------------------------ process
char *sim_getenv(const char *k) {
    Node *n = me();
    if (!n) return nullptr;
    auto it = n->env.find(k);
    return it == n->env.end() ? nullptr : (char *)it->second.c_str();
}
int sim_setenv(const char *k, const char *v, int o) { if (o || !me()->env.count(k)) me()->env[k] = v; return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "host%d", me()->host); return 0; }
int sim_getpid(void) { return me()->pid; }
unsigned sim_getuid(void) { return 1000; }
void sim_exit(int code) {
    Node *n = me();
    for (auto *f : n->files) if (f->open && f->wr) flush_file(f);
    n->exited = true;
    n->exit_code = code;
    kill_node(n, "exit");
    fiber_exit();
}
void sim__exit(int code) { me()->exited = true; me()->exit_code = code; kill_node(me(), "_exit"); fiber_exit(); }
void sim_abort(void) { fail("crash", me()->name() + " called abort"); yield_now(); fiber_exit(); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    fail("crash", me()->name() + ": assertion '" + e + "' failed in " + fn);
    yield_now();
    fiber_exit();
}
int sim_atexit(void (*)(void)) { return 0; }
int sim_prctl(int a, ...) { return 0; }
int sim_sigaction(int s, const void *a, void *b) { return 0; }
void *sim_signal(int s, void *h) { return nullptr; }
void *sim_dlopen(const char *f, int fl) { return nullptr; }
void *sim_dlsym(void *h, const char *n) { return nullptr; }
char *sim_dlerror(void) { return (char *)"no plug-ins in the simulation"; }
void sim_srand(unsigned s) { me()->rnd = s * 2654435761u + 88172645463325252ull; }
int sim_rand(void) { u64 &x = me()->rnd; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (int)(x >> 33); }
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_random(void) { return sim_rand(); }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return (*s / 65536) & 0x7fff; }
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &S.cur->strtok_p); }

// ------------------------------------------------------------------ time
static i64 wall(void) {
    Node *n = me();
    if (n && chance(CFG.clock_jump, "clock jump")) {
        double u = S.rng.unit();
        n->clock_off += (i64)((u - 0.4) * 20e9);
        if (u < 0.04) n->clock_off -= 50000000000000ll; // set back by hours
        S.st.clock_jumps++;
    }
    i64 t = 1700000000000000000ll + (i64)S.now + (n ? n->clock_off : 0);
    return t;
}
int sim_gettimeofday(struct timeval *tv, void *tz) { i64 t = wall(); tv->tv_sec = t / 1000000000; tv->tv_usec = t / 1000 % 1000000; point(2); return 0; }
int sim_clock_gettime(int id, struct timespec *ts) { i64 t = id == CLOCK_REALTIME ? wall() : (i64)S.now; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t sim_time(time_t *p) { time_t t = wall() / 1000000000; if (p) *p = t; return t; }
i64 sim_clock(void) { return (i64)(S.now / 1000); }
int sim_usleep(unsigned us) { block(nullptr, "usleep", (u64)us * 1000); return 0; }
unsigned sim_sleep(unsigned s) { block(nullptr, "sleep", (u64)s * 1000000000ull); return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *b) { block(nullptr, "nanosleep", a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
int sim_sched_yield(void) { yield_now(); return 0; }

// ------------------------------------------------------------------ threads
struct Mx { Fiber *owner = nullptr; int depth = 0; bool rec = false; };
static Mx *mx(void *m) {
    if (freed_memory(m)) mem_fail("mutex used after the memory that holds it was freed");
 void *&p = me()->mutexes[m]; if (!p) p = new Mx; return (Mx *)p; }
int sim_pthread_mutex_init(void *m, const void *a) { memset(m, 0, 40); Mx *x = mx(m); x->owner = nullptr; x->depth = 0; x->rec = a && *(const int *)a == 1; return 0; }
int sim_pthread_mutexattr_init(void *a) { *(int *)a = 0; return 0; }
int sim_pthread_mutexattr_settype(void *a, int t) { *(int *)a = t; return 0; }
int sim_pthread_mutexattr_destroy(void *a) { return 0; }
int sim_pthread_mutex_destroy(void *m) { return 0; }
int sim_pthread_mutex_lock(void *m) {
    point(40);
    Mx *x = mx(m);
    if (x->rec && x->owner == S.cur) { x->depth++; return 0; }
    while (x->owner) block(x, "mutex");
    x->owner = S.cur;
    x->depth = 1;
    return 0;
}
int sim_pthread_mutex_trylock(void *m) { point(40); Mx *x = mx(m); if (x->owner && !(x->rec && x->owner == S.cur)) return EBUSY; x->owner = S.cur; x->depth++; return 0; }
int sim_pthread_mutex_unlock(void *m) {
    point(10); // still held
    Mx *x = mx(m);
    if (x->rec && x->depth > 1) { x->depth--; return 0; }
    x->owner = nullptr;
    x->depth = 0;
    wake_all(x);
    point(40);
    return 0;
}
static void cv(const void *c) { if (freed_memory(c)) mem_fail("condition variable used after the memory that holds it was freed"); }
int sim_pthread_cond_init(void *c, const void *a) { memset(c, 0, 48); return 0; }
int sim_pthread_cond_destroy(void *c) { return 0; }
static void cond_release(void *m) { // atomic with the wait that follows
    Mx *x = mx(m);
    x->owner = nullptr;
    x->depth = 0;
    wake_all(x);
}
int sim_pthread_cond_wait(void *c, void *m) {
    cv(c);
    cond_release(m);
    // POSIX allows a wait to return without a signal
    if (chance(CFG.spurious, "spurious wake")) { S.st.spurious++; block(c, "cond", (u64)exp_choice(200e3, "spurious delay")); }
    else block(c, "cond");
    return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) {
    i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec - wall();
    cond_release(m);
    block(c, "cond", t > 0 ? (u64)t : 0);
    bool to = S.cur->timed_out;
    sim_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_signal(void *c) {
    cv(c);
    std::vector<Fiber *> w;
    for (auto *f : S.fibers) if (f->st == Fiber::BLOCK && f->wait_on == c) w.push_back(f);
    if (!w.empty()) wake(w[choose(w.size(), "signal")]);
    point(20);
    return 0;
}
int sim_pthread_cond_broadcast(void *c) { cv(c); wake_all(c); point(20); return 0; }
int sim_pthread_create(unsigned long *t, const void *a, void *(*fn)(void *), void *arg) {
    static int no = 0;
    if (fail_here()) return EAGAIN;
    Node *n = me();
    Fiber *f = spawn(n, "t" + std::to_string(++no), nullptr, 1 << 20);
    f->fn = [f, fn, arg] { f->retval = fn(arg); };
    *t = (unsigned long)f;
    point(20);
    return 0;
}
int sim_pthread_join(unsigned long t, void **r) { Fiber *f = (Fiber *)t; while (f->st != Fiber::DONE) block(f, "join"); if (r) *r = f->retval; return 0; }
int sim_pthread_detach(unsigned long t) { return 0; }
unsigned long sim_pthread_self(void) { return (unsigned long)S.cur; }
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int sim_pthread_kill(unsigned long t, int s) { return 0; }
void sim_pthread_exit(void *r) { S.cur->retval = r; fiber_exit(); }
int sim_pthread_setname_np(unsigned long t, const char *n) { return 0; }
int sim_pthread_rwlock_init(void *m, const void *a) { return sim_pthread_mutex_init(m, nullptr); }
int sim_pthread_rwlock_rdlock(void *m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_wrlock(void *m) { return sim_pthread_mutex_lock(m); }
int sim_pthread_rwlock_unlock(void *m) { return sim_pthread_mutex_unlock(m); }
int sim_pthread_rwlock_destroy(void *m) { return 0; }
}
