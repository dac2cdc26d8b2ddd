#include "simio.h"
#include <algorithm>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/epoll.h>
#include <termios.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <pthread.h>

FsFaults g_ff;
NetFaults g_nf;
s64 g_disk_quota = -1;
u64 g_fs_writes, g_fs_reads, g_fs_opens;
static u64 g_disk_used;
u64 fs_used() { return g_disk_used; }
static int next_ino = 100;
static InodeP root;
static std::map<int, FileP> fdt[64];
static std::map<int, SockP> listeners;  // by port
static std::map<int, s64> time_wait;     // by port of a server: until when connections it has closed linger
static std::vector<std::weak_ptr<Sock>> conns;
static int next_sock = 1, next_port = 40000;
static u64 arm_seq = 0;
std::function<void(int)> on_crash;

Inode::~Inode() { if (memfd >= 0) { g_disk_used -= size(); close(memfd); } }
u64 Inode::size() const {
    struct stat st;
    if (memfd < 0 || fstat(memfd, &st)) return 0;
    return (u64)st.st_size;
}
std::string Inode::content() const {
    std::string s(size(), 0);
    if (memfd >= 0 && !s.empty() && pread(memfd, &s[0], s.size(), 0) != (ssize_t)s.size()) harness_error("memfd read");
    return s;
}
void Inode::set_content(const std::string &s) {
    g_disk_used -= size();
    if (ftruncate(memfd, (off_t)s.size())) harness_error("memfd truncate");
    if (!s.empty() && pwrite(memfd, s.data(), s.size(), 0) != (ssize_t)s.size()) harness_error("memfd write");
    g_disk_used += s.size();
}
static InodeP mk_inode(bool dir) {
    auto n = std::make_shared<Inode>();
    n->ino = next_ino++;
    n->dir = dir;
    n->mtime = S.now;
    if (!dir) {
        n->memfd = memfd_create("f", MFD_CLOEXEC);
        if (n->memfd < 0) harness_error("memfd_create: %s", strerror(errno));
    }
    return n;
}
static int nd() { int n = cur_node(); return n < 0 ? 63 : n; }
static void sysc(int k) {
    if (++R->syscalls > 2000000) violation("livelock", "two million system calls (last kind: %d, by process %d) get nothing done", k, cur_node());
    S.now += 500;
    sim_point(100 + k);
}
// ------------------------------------------------------------------ signals
struct NodeSig { std::map<int, void (*)(int)> h; std::deque<int> pending; int main_thr = -1; };
static NodeSig nsig[64];
void io_set_main(int node, int thr) { nsig[node].main_thr = thr; }
void sim_signal(int node, int sig) { nsig[node].pending.push_back(sig); }
static bool sig_pending() {
    NodeSig &n = nsig[nd()];
    return !n.pending.empty() && S.cur && n.main_thr == S.cur->id;
}
static bool sig_take() {
    bool r = false;
    while (sig_pending()) {
        NodeSig &n = nsig[nd()];
        int s = n.pending.front();
        n.pending.pop_front();
        auto it = n.h.find(s);
        if (s == 0) { fault(FK_NET_EINTR); r = true; continue; }   // some signal with a handler that does nothing
        if (it == n.h.end() || it->second == SIG_DFL) {
            violation("killed_by_signal", "node %d received signal %d with no handler installed", nd(), s);
        }
        fault(FK_SIGINT);
        if (it->second != SIG_IGN) it->second(s);
        r = true;
    }
    return r;
}
extern "C" void (*simc_signal(int sig, void (*h)(int)))(int) {
    auto &m = nsig[nd()].h;
    auto o = m.count(sig) ? m[sig] : SIG_DFL;
    m[sig] = h;
    return o;
}
extern "C" int simc_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
    if (o) memset(o, 0, sizeof *o);
    if (a) nsig[nd()].h[sig] = a->sa_handler;
    return 0;
}
// 0 ready, 1 timeout, 2 interrupted
static int wait_io(std::function<bool()> pred, s64 deadline, const char *what) {
    Thr *me = S.cur;
    (void)me;
    bool to = sim_wait([pred]() { return pred(); }, deadline, what);
    return to ? 1 : 0;
}
static int wait_sig(std::function<bool()> pred, s64 deadline, const char *what) {
    NodeSig *n = &nsig[nd()];
    bool main = n->main_thr == S.cur->id;
    bool to = sim_wait([pred, n, main]() { return (main && !n->pending.empty()) || pred(); }, deadline, what);
    if (sig_take()) return 2;
    return to ? 1 : 0;
}
// ------------------------------------------------------------------ fd table
static int fd_new(FileP f) {
    auto &t = fdt[nd()];
    int fd = 3;
    for (auto &kv : t) {
        if (kv.first < 3) continue;
        if (kv.first == fd) fd++;
        else break;
    }
    f->node = nd();
    t[fd] = f;
    return fd;
}
static FileP fd_get(int fd) {
    auto &t = fdt[nd()];
    auto it = t.find(fd);
    if (it == t.end()) return nullptr;
    return it->second;
}
u64 g_net_accepted[64];
std::map<int, SimStdin> g_stdin;
void tty_ready(int node) {
    auto it = fdt[node].find(0);
    if (it != fdt[node].end() && it->second) for (auto &w : it->second->watchers) if (auto p = w.lock()) { p->armed = true; p->seq = ++arm_seq; }
}
int node_fd_count(int node, int kind) {
    int c = 0;
    for (auto &kv : fdt[node]) if (kv.first >= 3 && (kind < 0 || kv.second->k == kind)) c++;
    return c;
}
std::string node_fd_desc(int node) {
    static const char *kn[] = {"file", "dir", "sock", "epoll", "eventfd", "std", "pipe", "pipe"};
    std::string s;
    char b[200];
    for (auto &kv : fdt[node]) {
        if (kv.first < 3) continue;
        snprintf(b, sizeof b, " %d:%s%s%.60s", kv.first, kn[kv.second->k], kv.second->path.empty() ? "" : "=", kv.second->path.c_str());
        s += b;
    }
    return s;
}
// ------------------------------------------------------------------ paths
static std::vector<std::string> split_path(const std::string &p0) {
    std::string p = p0.empty() || p0[0] != '/' ? "/sim/" + p0 : p0;
    std::vector<std::string> v;
    size_t i = 0;
    while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string c = p.substr(i, j - i);
        if (c == "..") { if (!v.empty()) v.pop_back(); }
        else if (!c.empty() && c != ".") v.push_back(c);
        i = j + 1;
    }
    return v;
}
static std::string norm(const std::string &p) {
    std::string r;
    for (auto &c : split_path(p)) r += "/" + c;
    return r.empty() ? "/" : r;
}
static InodeP walk(const std::string &path, InodeP *parent, std::string *leaf, int *err) {
    InodeP cur = root, par = nullptr;
    auto v = split_path(path);
    std::string lf;
    if (err) *err = ENOENT;
    for (size_t i = 0; i < v.size(); i++) {
        if (!cur) { if (parent) *parent = nullptr; return nullptr; }
        if (!cur->dir) { if (err) *err = ENOTDIR; if (parent) *parent = nullptr; return nullptr; }
        par = cur;
        lf = v[i];
        auto it = cur->kids.find(v[i]);
        cur = it == cur->kids.end() ? nullptr : it->second;
    }
    if (parent) *parent = par;
    if (leaf) *leaf = lf;
    if (cur && path.size() > 1 && path.back() == '/' && !cur->dir) { if (err) *err = ENOTDIR; return nullptr; }
    return cur;
}
InodeP fs_root() { return root; }
void fs_set_root(InodeP r) { root = r; }
InodeP fs_lookup(const std::string &p) { return walk(p, nullptr, nullptr, nullptr); }
void fs_mkdirs(const std::string &p) {
    InodeP cur = root;
    for (auto &c : split_path(p)) {
        auto &k = cur->kids[c];
        if (!k) k = mk_inode(true);
        cur = k;
    }
}
InodeP fs_create(const std::string &p, const std::string &content) {
    InodeP par;
    std::string leaf;
    std::string n = norm(p);
    size_t sl = n.rfind('/');
    if (sl) fs_mkdirs(n.substr(0, sl));
    InodeP c = walk(p, &par, &leaf, nullptr);
    if (!c) { c = mk_inode(false); par->kids[leaf] = c; }
    c->set_content(content);
    return c;
}
bool fs_remove(const std::string &p) {
    InodeP par;
    std::string leaf;
    if (!walk(p, &par, &leaf, nullptr) || !par) return false;
    par->kids.erase(leaf);
    return true;
}
static void list_rec(InodeP d, const std::string &pre, std::vector<std::string> &o) {
    for (auto &kv : d->kids) {
        if (kv.second->dir) list_rec(kv.second, pre + "/" + kv.first, o);
        else o.push_back(pre + "/" + kv.first);
    }
}
std::vector<std::string> fs_list(const std::string &p) {
    std::vector<std::string> o;
    InodeP d = fs_lookup(p);
    if (d && d->dir) list_rec(d, norm(p) == "/" ? "" : norm(p), o);
    return o;
}
std::string fs_read(const std::string &p) {
    InodeP i = fs_lookup(p);
    return i && !i->dir ? i->content() : std::string();
}
InodeP fs_snapshot(InodeP r) {
    InodeP n = mk_inode(r->dir);
    if (r->dir) for (auto &kv : r->kids) n->kids[kv.first] = fs_snapshot(kv.second);
    else n->set_content(r->content());
    return n;
}
// ------------------------------------------------------------------ FS faults
enum { FE_NONE = 0, FE_SHORT, FE_EINTR, FE_EIO, FE_ENOSPC, FE_FAIL, FE_CRASH_BEFORE, FE_CRASH_MID, FE_CRASH_AFTER };
static bool ff_on(const std::string &path) {
    return g_ff.on && nd() < 31 && (g_ff.node_mask >> nd() & 1) && (!g_ff.path_filter || g_ff.path_filter(path));
}
void crash_now() {
    int n = nd();
    fault(FK_CRASH);
    note("node %d crashes", n);
    if (on_crash) on_crash(n);
    io_node_died(n);
    sim_kill_node(n);
    for (;;) pause();
}
struct FD { u32 kind; u32 frac; };
static FD fs_decide(const std::string &path, double ps, double pi, double pe, double pn, double pf) {
    if (!ff_on(path)) return {0, 0};
    u32 v = decide(C_FS, 0, [&]() -> u32 {
        Rng &r = S.rng;
        double x = r.unit();
        u32 frac = (u32)r.below(256);
        if ((x -= g_ff.p_crash) < 0) { u32 k = (u32)r.below(3); return (u32)(FE_CRASH_BEFORE + k) | frac << 8; }
        if ((x -= ps) < 0) return FE_SHORT | frac << 8;
        if ((x -= pi) < 0) return FE_EINTR;
        if ((x -= pe) < 0) return FE_EIO | frac << 8;
        if ((x -= pn) < 0) return FE_ENOSPC | frac << 8;
        if ((x -= pf) < 0) return FE_FAIL | (frac & 1) << 8;
        return 0;
    });
    return {v & 0xff, v >> 8};
}
static size_t frac_of(size_t n, u32 frac) {  // in [1, n-1] when n > 1
    if (n <= 1) return n;
    return 1 + (size_t)((n - 1) * (u64)frac / 256);
}
std::map<std::string, std::string> g_env;
extern "C" {
// ------------------------------------------------------------------ files
int simc_open(const char *path, int flags, ...) {
    sysc(1);
    sig_take();
    g_fs_opens++;
    FD d = fs_decide(path, 0, 0, 0, 0, g_ff.p_open);
    if (d.kind == FE_CRASH_BEFORE || d.kind == FE_CRASH_MID) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_OPENFAIL); errno = d.frac ? EMFILE : ENFILE; note("open %s fails", path); return -1; }
    InodeP par;
    std::string leaf;
    int err;
    InodeP n = walk(path, &par, &leaf, &err);
    size_t L = strlen(path);
    if (!n) {
        if (!(flags & O_CREAT) || !par || !par->dir || leaf.empty() || err == ENOTDIR) { errno = err; return -1; }
        if (path[L - 1] == '/') { errno = EISDIR; return -1; }
        if (leaf.size() > 255) { errno = ENAMETOOLONG; return -1; }
        n = mk_inode(false);
        par->kids[leaf] = n;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (n->dir && (flags & (O_WRONLY | O_RDWR))) { errno = EISDIR; return -1; }
    if (!n->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if (!n->dir && (flags & O_TRUNC) && (flags & (O_WRONLY | O_RDWR))) n->set_content("");
    auto f = std::make_shared<File>();
    f->k = n->dir ? File::DIR : File::REG;
    f->flags = flags;
    f->ino = n;
    f->path = norm(path);
    int fd = fd_new(f);
    if (d.kind == FE_CRASH_AFTER) crash_now();
    return fd;
}
int simc_openat(int, const char *path, int flags, ...) { return simc_open(path, flags, 0644); }
int simc_creat(const char *path, int) { return simc_open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
static long sock_read(FileP f, void *buf, size_t n, int flags);
static long sock_write(FileP f, const void *buf, size_t n, int flags);
static long file_read(FileP f, void *buf, size_t n, u64 off, bool adv) {
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (f->k == File::DIR) { errno = EISDIR; return -1; }
    FD d = fs_decide(f->path, g_ff.p_short_read, g_ff.p_eintr, g_ff.p_eio_r, 0, 0);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_EINTR) { fault(FK_FS_EINTR); errno = EINTR; return -1; }
    if (d.kind == FE_EIO) { fault(FK_FS_EIO); errno = EIO; note("read %s EIO", f->path.c_str()); return -1; }
    u64 sz = f->ino->size();
    u64 av = off < sz ? sz - off : 0;
    size_t k = std::min<u64>(n, av);
    if (d.kind == FE_SHORT && k > 1) { k = frac_of(k, d.frac); fault(FK_FS_SHORT_READ); }
    if (k) {
        long r = pread(f->ino->memfd, buf, k, (off_t)off);
        if (r < 0) { return -1; }
        k = (size_t)r;
    }
    if (adv) f->off += k;
    g_fs_reads++;
    return (long)k;
}
static long file_write(FileP f, const void *buf, size_t n, u64 off, bool adv) {
    if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    FD d = fs_decide(f->path, g_ff.p_short_write, g_ff.p_eintr, g_ff.p_eio_w, g_ff.p_enospc, 0);
    if (f->flags & O_APPEND) off = f->ino->size();
    size_t k = n;
    if (d.kind == FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_EINTR) { fault(FK_FS_EINTR); errno = EINTR; return -1; }
    if (d.kind == FE_EIO) { fault(FK_FS_EIO); errno = EIO; note("write %s EIO", f->path.c_str()); return -1; }
    if (d.kind == FE_ENOSPC) { fault(FK_FS_ENOSPC); errno = ENOSPC; note("write %s ENOSPC", f->path.c_str()); return -1; }
    if ((d.kind == FE_SHORT || d.kind == FE_CRASH_MID) && k > 1) { k = frac_of(k, d.frac); if (d.kind == FE_SHORT) fault(FK_FS_SHORT_WRITE); }
    if (g_disk_quota >= 0 && nd() < 31) {
        u64 sz = f->ino->size(), end = off + k, grow = end > sz ? end - sz : 0;
        s64 room = g_disk_quota - (s64)g_disk_used;
        if (room < 0) room = 0;
        if ((s64)grow > room) {
            s64 nk = (s64)k - ((s64)grow - room);
            fault(FK_FS_ENOSPC);
            if (nk <= 0) { errno = ENOSPC; note("write %s disk full", f->path.c_str()); return -1; }
            k = (size_t)nk;
        }
    }
    if (k) {
        u64 s0 = f->ino->size();
        long r = pwrite(f->ino->memfd, buf, k, (off_t)off);
        if (r < 0) return -1;  // bad buffer: EFAULT
        k = (size_t)r;
        g_disk_used += f->ino->size() - s0;
    }
    f->ino->mtime = S.now;
    if (adv) f->off = off + k;
    g_fs_writes++;
    if (d.kind == FE_CRASH_MID) fault(FK_TORN);
    if (d.kind >= FE_CRASH_MID) crash_now();
    return (long)k;
}
static long stdin_read(SimStdin &q, void *buf, size_t n) {
    q.reads++;
    if (q.tty && q.pos >= q.data.size()) { errno = EAGAIN; return -1; }
    int k = q.step < q.plan.size() ? q.plan[q.step++] : (int)n;
    if (k < 0) { fault(FK_STDIN); note("read of standard input fails"); errno = -k; return -1; }
    if ((size_t)k < n && q.pos + (size_t)k < q.data.size()) fault(FK_STDIN);
    size_t m = std::min({n, (size_t)k, q.data.size() - q.pos});
    memcpy(buf, q.data.data() + q.pos, m);
    q.pos += m;
    return (long)m;
}
long simc_read(int fd, void *buf, size_t n) {
    sysc(2);
    sig_take();
    if (fd == 0 && g_stdin.count(nd())) return stdin_read(g_stdin[nd()], buf, n);
    FileP f = fd_get(fd);
    if (!f) { if (fd == 0) return 0; errno = EBADF; return -1; }
    if (f->k == File::SOCK) return sock_read(f, buf, n, 0);
    if (f->k == File::EVENTFD) {
        if (n < 8) { errno = EINVAL; return -1; }
        if (!f->evcount) {
            if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
            wait_sig([f]() { return f->evcount > 0; }, -1, "eventfd read");
        }
        memcpy(buf, &f->evcount, 8);
        f->evcount = 0;
        return 8;
    }
    if (f->k == File::REG || f->k == File::DIR) return file_read(f, buf, n, f->off, true);
    errno = EINVAL;
    return -1;
}
static void arm_file(FileP f) {
    for (auto &w : f->watchers) if (auto p = w.lock()) { p->armed = true; p->seq = ++arm_seq; }
}
long simc_write(int fd, const void *buf, size_t n) {
    sysc(3);
    FileP f = fd_get(fd);
    if (!f) {
        if (fd >= 0 && fd <= 2) { std::string &o = ::g_out[nd()]; if (o.size() < 2000000) o.append((const char *)buf, n); return (long)n; }
        errno = EBADF; return -1;
    }
    if (f->k == File::SOCK) return sock_write(f, buf, n, 0);
    if (f->k == File::EVENTFD) {
        if (n < 8) { errno = EINVAL; return -1; }
        u64 v;
        memcpy(&v, buf, 8);
        f->evcount += v;
        arm_file(f);
        return 8;
    }
    if (f->k == File::REG) return file_write(f, buf, n, f->off, true);
    errno = EINVAL;
    return -1;
}
long simc_pread(int fd, void *buf, size_t n, long off) {
    sysc(4);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k != File::REG) { errno = ESPIPE; return -1; }
    return file_read(f, buf, n, (u64)off, false);
}
long simc_pwrite(int fd, const void *buf, size_t n, long off) {
    sysc(5);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k != File::REG) { errno = ESPIPE; return -1; }
    return file_write(f, buf, n, (u64)off, false);
}
long simc_readv(int fd, const struct iovec *v, int n) { for (int i = 0; i < n; i++) if (v[i].iov_len) return simc_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
long simc_writev(int fd, const struct iovec *v, int n) {
    std::string s;
    for (int i = 0; i < n; i++) s.append((char *)v[i].iov_base, v[i].iov_len);
    return simc_write(fd, s.data(), s.size());
}
static void sock_close(SockP s);
int simc_close(int fd) {
    sysc(6);
    auto &t = fdt[nd()];
    auto it = t.find(fd);
    if (it == t.end()) { if (fd >= 0 && fd <= 2) return 0; errno = EBADF; return -1; }
    FileP f = it->second;
    FD d = {0, 0};
    if (f->k == File::REG) d = fs_decide(f->path, 0, 0, 0, 0, g_ff.p_close);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    t.erase(it);
    bool last = true;
    for (auto &kv : t) if (kv.second == f) last = false;
    if (last && f->k == File::SOCK) sock_close(f->sk);
    if (last)
        for (auto &kv : t) if (kv.second->k == File::EPOLL) {
            auto &items = kv.second->ep->items;
            for (auto i = items.begin(); i != items.end();) { if (i->second->file.lock() == f) i = items.erase(i); else ++i; }
        }
    if (d.kind == FE_FAIL) { fault(FK_FS_EIO); errno = EIO; return -1; }
    return 0;
}
long simc_lseek(int fd, long off, int wh) {
    sysc(7);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k != File::REG) { errno = ESPIPE; return -1; }
    s64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (s64)f->off : wh == SEEK_END ? (s64)f->ino->size() : -1;
    if (b < 0 || b + off < 0) { errno = EINVAL; return -1; }
    FD d = fs_decide(f->path, 0, 0, 0, 0, g_ff.p_lseek);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_EIO); errno = EIO; return -1; }
    f->off = (u64)(b + off);
    return (long)f->off;
}
static void fill_stat(InodeP n, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_mode = n->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_ino = (ino_t)n->ino;
    st->st_nlink = 1;
    st->st_size = (off_t)n->size();
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = n->mtime / 1000000000;
    st->st_mtim.tv_nsec = n->mtime % 1000000000;
}
int simc_fstat(int fd, struct stat *st) {
    sysc(8);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k == File::REG || f->k == File::DIR) {
        FD d = fs_decide(f->path, 0, 0, 0, 0, g_ff.p_stat);
        if (d.kind >= FE_CRASH_BEFORE) crash_now();
        if (d.kind == FE_FAIL) { fault(FK_FS_STATFAIL); errno = EIO; return -1; }
        fill_stat(f->ino, st);
    } else {
        memset(st, 0, sizeof *st);
        st->st_mode = f->k == File::SOCK ? S_IFSOCK | 0600 : 0600;
    }
    return 0;
}
int simc_stat(const char *path, struct stat *st) {
    sysc(9);
    int err;
    FD d = fs_decide(path, 0, 0, 0, 0, g_ff.p_lstat);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_STATFAIL); errno = EACCES; return -1; }
    InodeP n = walk(path, nullptr, nullptr, &err);
    if (!n) { errno = err; return -1; }
    fill_stat(n, st);
    return 0;
}
int simc_lstat(const char *p, struct stat *st) { return simc_stat(p, st); }
int simc_access(const char *p, int) { sysc(10); int err; if (walk(p, nullptr, nullptr, &err)) return 0; errno = err; return -1; }
int simc_mkdir(const char *path, unsigned) {
    sysc(11);
    InodeP par;
    std::string leaf;
    int err;
    FD d = fs_decide(path, 0, 0, 0, 0, g_ff.p_mkdir);
    if (d.kind == FE_CRASH_BEFORE || d.kind == FE_CRASH_MID) crash_now();
    if (walk(path, &par, &leaf, &err)) { errno = EEXIST; return -1; }
    if (!par || leaf.empty()) { errno = err; return -1; }
    if (!par->dir) { errno = ENOTDIR; return -1; }
    if (d.kind == FE_FAIL) { fault(FK_FS_ENOSPC); errno = ENOSPC; return -1; }
    par->kids[leaf] = mk_inode(true);
    if (d.kind == FE_CRASH_AFTER) crash_now();
    return 0;
}
int simc_rmdir(const char *path) {
    sysc(12);
    InodeP par;
    std::string leaf;
    int err;
    InodeP n = walk(path, &par, &leaf, &err);
    if (!n) { errno = err; return -1; }
    if (!n->dir) { errno = ENOTDIR; return -1; }
    if (!n->kids.empty()) { errno = ENOTEMPTY; return -1; }
    par->kids.erase(leaf);
    return 0;
}
int simc_unlink(const char *path) {
    sysc(13);
    InodeP par;
    std::string leaf;
    int err;
    InodeP n = walk(path, &par, &leaf, &err);
    if (!n) { errno = err; return -1; }
    if (n->dir) { errno = EISDIR; return -1; }
    FD d = fs_decide(path, 0, 0, 0, 0, g_ff.p_unlink);
    if (d.kind == FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_EIO); errno = EIO; return -1; }
    par->kids.erase(leaf);
    if (d.kind >= FE_CRASH_MID) crash_now();
    return 0;
}
int simc_remove(const char *p) { return simc_unlink(p); }
int simc_rename(const char *a, const char *b) {
    sysc(14);
    InodeP pa, pb;
    std::string la, lb;
    int err;
    FD d = fs_decide(b, 0, 0, 0, 0, g_ff.p_unlink);
    if (d.kind == FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_EIO); errno = EIO; return -1; }
    InodeP n = walk(a, &pa, &la, &err);
    if (!n) { errno = err; return -1; }
    InodeP m = walk(b, &pb, &lb, &err);
    if (!pb) { errno = err; return -1; }
    if (m && m->dir && !n->dir) { errno = EISDIR; return -1; }
    if (m && m->dir && !m->kids.empty()) { errno = ENOTEMPTY; return -1; }
    pa->kids.erase(la);
    pb->kids[lb] = n;
    if (d.kind >= FE_CRASH_MID) crash_now();
    return 0;
}
int simc_chmod(const char *, unsigned) { return 0; }
int simc_fchmod(int fd, unsigned) { sysc(15); if (!fd_get(fd)) { errno = EBADF; return -1; } return 0; }
int simc_fsync(int fd) { sysc(15); if (!fd_get(fd)) { errno = EBADF; return -1; } return 0; }
int simc_fdatasync(int fd) { return simc_fsync(fd); }
int simc_ftruncate(int fd, long n) {
    sysc(16);
    FileP f = fd_get(fd);
    if (!f || f->k != File::REG) { errno = EBADF; return -1; }
    FD d = fs_decide(f->path, 0, 0, 0, 0, g_ff.p_lseek);
    if (d.kind == FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_EIO); errno = EIO; return -1; }
    u64 s0 = f->ino->size();
    if (n < 0 || ftruncate(f->ino->memfd, n)) { errno = EINVAL; return -1; }
    g_disk_used += f->ino->size() - s0;
    if (d.kind >= FE_CRASH_MID) crash_now();
    return 0;
}
int simc_truncate(const char *p, long n) { int fd = simc_open(p, O_RDWR); if (fd < 0) return -1; int r = simc_ftruncate(fd, n); simc_close(fd); return r; }
int simc_fallocate(int fd, int, long off, long len) { FileP f = fd_get(fd); if (!f) { errno = EBADF; return -1; } if ((s64)f->ino->size() < off + len) return simc_ftruncate(fd, off + len); return 0; }
int simc_posix_fallocate(int fd, long off, long len) { return simc_fallocate(fd, 0, off, len) ? errno : 0; }
struct SimDir { std::vector<std::string> names; size_t pos = 0; struct dirent de; int fd; InodeP ino; };
void *simc_opendir(const char *path) {
    sysc(17);
    int err;
    FD d = fs_decide(path, 0, 0, 0, 0, g_ff.p_open);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_OPENFAIL); errno = EMFILE; return nullptr; }
    InodeP n = walk(path, nullptr, nullptr, &err);
    if (!n) { errno = err; return nullptr; }
    if (!n->dir) { errno = ENOTDIR; return nullptr; }
    auto f = std::make_shared<File>();
    f->k = File::DIR;
    f->ino = n;
    f->path = norm(path);
    SimDir *sd = new SimDir;
    sd->fd = fd_new(f);
    sd->ino = n;
    sd->names = {".", ".."};
    std::vector<std::pair<u64, std::string>> o;
    for (auto &kv : n->kids) {
        u64 h = S.cf.seed * 0x9E3779B97F4A7C15ull + 77;
        for (char c : kv.first) h = (h ^ (u8)c) * 0x100000001B3ull;
        o.push_back({h ^ h >> 29, kv.first});
    }
    std::sort(o.begin(), o.end());
    for (auto &x : o) sd->names.push_back(x.second);
    return sd;
}
struct dirent *simc_readdir(void *p) {
    SimDir *d = (SimDir *)p;
    R->syscalls++;
    FD fd = fs_decide(fd_get(d->fd) ? fd_get(d->fd)->path : "", 0, 0, g_ff.p_readdir, 0, 0);
    if (fd.kind >= FE_CRASH_BEFORE) crash_now();
    if (fd.kind == FE_EIO) { fault(FK_FS_EIO); errno = EIO; note("readdir EIO"); return nullptr; }
    if (d->pos >= d->names.size()) return nullptr;
    memset(&d->de, 0, sizeof d->de);
    const std::string &nm = d->names[d->pos++];
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", nm.c_str());
    d->de.d_ino = 1;
    auto it = d->ino->kids.find(nm);
    d->de.d_type = it == d->ino->kids.end() || it->second->dir ? DT_DIR : DT_REG;
    return &d->de;
}
void simc_rewinddir(void *p) { ((SimDir *)p)->pos = 0; }
int simc_closedir(void *p) {
    SimDir *d = (SimDir *)p;
    simc_close(d->fd);
    delete d;
    return 0;
}
long simc_readlink(const char *path, char *buf, size_t n) {
    sysc(18);
    int fd;
    if (sscanf(path, "/proc/self/fd/%d", &fd) == 1) {
        FileP f = fd_get(fd);
        if (!f) { errno = ENOENT; return -1; }
        std::string p = f->path;
        if (f->ino) {
            InodeP c = walk(p, nullptr, nullptr, nullptr);
            if (c != f->ino) p += " (deleted)";
        } else p = "anon";
        size_t k = std::min(n, p.size());
        memcpy(buf, p.data(), k);
        return (long)k;
    }
    errno = EINVAL;
    return -1;
}
char *simc_realpath(const char *p, char *r) {
    int err;
    if (!walk(p, nullptr, nullptr, &err)) { errno = err; return nullptr; }
    std::string s = norm(p);
    if (!r) return strdup(s.c_str());
    strcpy(r, s.c_str());
    return r;
}
int simc_chdir(const char *) { return 0; }
int simc_fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    sysc(19);
    if (int e = call_fault("fcntl")) { errno = e; return -1; }
    FileP f = fd_get(fd);
    if (!f) { if (fd >= 0 && fd <= 2) return 0; errno = EBADF; return -1; }
    switch (cmd) {
        case F_GETFL: return f->k == File::SOCK ? (f->sk->nonblock ? O_RDWR | O_NONBLOCK : O_RDWR) : f->flags;
        case F_SETFL:
            if (f->k == File::SOCK) f->sk->nonblock = a & O_NONBLOCK;
            else f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | ((int)a & (O_NONBLOCK | O_APPEND));
            return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC: return fd_new(f);
        default: return 0;
    }
}
int simc_dup(int fd) { FileP f = fd_get(fd); if (!f) { errno = EBADF; return -1; } return fd_new(f); }
int simc_dup2(int fd, int nfd) { FileP f = fd_get(fd); if (!f) { errno = EBADF; return -1; } if (fd_get(nfd)) simc_close(nfd); fdt[nd()][nfd] = f; return nfd; }
int simc_ioctl(int fd, unsigned long, ...) { (void)fd; errno = ENOTTY; return -1; }
int simc_isatty(int fd) {
    auto it = g_stdin.find(nd());
    if (fd != 0 || it == g_stdin.end() || !it->second.tty) { errno = ENOTTY; return 0; }
    auto &f = fdt[nd()][0];
    if (!f) { f = std::make_shared<File>(); f->k = File::STD; f->node = nd(); }
    return 1;
}
int simc_tcgetattr(int, void *a) { if (int e = call_fault("tcgetattr")) { errno = e; return -1; } memset(a, 0, sizeof(struct termios)); return 0; }
int simc_tcsetattr(int, int, const void *) { if (int e = call_fault("tcsetattr")) { errno = e; return -1; } return 0; }
int simc_flock(int, int) { if (int e = call_fault("flock")) { errno = e; return -1; } return 0; }
char *simc_getenv(const char *k) { auto it = g_env.find(k); return it == g_env.end() ? nullptr : (char *)it->second.c_str(); }
int simc_setenv(const char *, const char *, int) { return 0; }
int simc_system(const char *) { return -1; }
void *simc_dlopen(const char *, int) { return nullptr; }
void *simc_dlsym(void *, const char *) { return nullptr; }
int simc_dlclose(void *) { return 0; }
char *simc_dlerror(void) { return (char *)"no dynamic libraries in simulation"; }
}
// ------------------------------------------------------------------ file mappings
extern std::map<u64, MapInfo> g_maps;
void *arena_map_fd(u64 len, int prot, int flags, int fd, u64 off);
void *fs_mmap(int fd, u64 len, int prot, int flags, u64 off) {
    sim_point(130);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return MAP_FAILED; }
    if (f->k != File::REG) { errno = ENODEV; return MAP_FAILED; }
    if (len == 0 || (off & 4095)) { errno = EINVAL; return MAP_FAILED; }
    if (len > (1ull << 42)) { errno = ENOMEM; return MAP_FAILED; }
    FD d = fs_decide(f->path, 0, 0, 0, 0, g_ff.p_mmap);
    if (d.kind >= FE_CRASH_BEFORE) crash_now();
    if (d.kind == FE_FAIL) { fault(FK_FS_MMAPFAIL); errno = ENOMEM; note("mmap %s fails", f->path.c_str()); return MAP_FAILED; }
    return arena_map_fd(len, prot, flags, f->ino->memfd, off);
}
void fs_munmap(u64, u64) {}

// ------------------------------------------------------------------ network
static void arm_sock(Sock *s) {
    for (auto &w : s->watchers) if (auto p = w.lock()) { p->armed = true; p->seq = ++arm_seq; }
}
static u64 sock_used(const SockP &s) {  // bytes s has queued towards its peer
    SockP p = s->peer.lock();
    if (!p) return 0;
    return p->inflight + p->rx.size();
}
static void do_rst(SockP s) {
    if (s->st != Sock::CONN) return;
    s->rst = true;
    s->in.clear();
    s->inflight = 0;
    arm_sock(s.get());
}
static void push_seg(SockP to, const std::string &data, int ctl, s64 at) {
    if (at < to->last_at) at = to->last_at;
    to->last_at = at;
    to->in.push_back({at, data, ctl});
    to->inflight += data.size();
}
static s64 net_delay() {
    if (!g_nf.on || g_nf.p_delay <= 0) return 20000;
    u32 v = decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_delay) ? (u32)S.rng.range(1, std::max<s64>(1, g_nf.delay_max_us)) : 0; });
    if (v) fault(FK_NET_DELAY);
    return 20000 + (s64)v * 1000;
}
static void send_rst_to(SockP p) {
    if (!p || p->st != Sock::CONN) return;
    bool drop = false;
    if (g_nf.on && g_nf.p_rstdrop > 0 && !p->in.empty()) {
        drop = decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_rstdrop); }) != 0;
    }
    if (drop) { p->in.clear(); p->inflight = 0; p->last_at = S.now; }
    push_seg(p, "", 2, S.now + 20000);
}
static void deliver(SockP s) {
    while (!s->silent && !s->in.empty() && s->in.front().at <= S.now) {
        Seg g = s->in.front();
        s->in.pop_front();
        s->inflight -= g.data.size();
        if (g.ctl == 2) { do_rst(s); return; }
        if (s->st == Sock::CLOSED) {
            if (!g.data.empty()) { SockP p = s->peer.lock(); if (p) send_rst_to(p); return; }
            continue;
        }
        if (g.ctl == 1) s->fin_rx = true;
        else s->rx += g.data;
        arm_sock(s.get());
    }
}
static void net_advance() {
    for (size_t i = 0; i < conns.size(); i++)
        if (SockP s = conns[i].lock()) deliver(s);
}
static s64 net_next() {
    s64 t = -1;
    for (auto &w : conns)
        if (SockP s = w.lock())
            if (!s->silent && !s->in.empty() && (t < 0 || s->in.front().at < t)) t = s->in.front().at;
    return t;
}
void net_hold(SockP s, bool hold) {
    s->silent = hold;
    if (!hold) {
        s64 at = S.now + 1000;
        for (auto &g : s->in) if (g.at < at) g.at = at;
    }
}
std::vector<SockP> all_conns() {
    std::vector<SockP> v;
    for (auto &w : conns) if (SockP s = w.lock()) if (s->st == Sock::CONN && !s->rst) v.push_back(s);
    return v;
}
void net_reset_conn(SockP s) {
    fault(FK_NET_RESET);
    SockP p = s->peer.lock();
    do_rst(s);
    if (p) do_rst(p);
}
static u32 sock_mask(const SockP &s) {
    u32 m = 0;
    if (s->st == Sock::LISTEN) return s->acceptq.empty() ? 0 : EPOLLIN;
    if (s->st != Sock::CONN) return EPOLLOUT | EPOLLHUP;
    if (!s->rx.empty() || s->fin_rx || s->rst) m |= EPOLLIN;
    u64 used = sock_used(s);
    if (s->rst || used * 3 <= s->cap * 2) m |= EPOLLOUT;
    if (s->fin_rx || s->rst) m |= EPOLLRDHUP;
    if ((s->fin_rx && s->wr_shut) || s->rst) m |= EPOLLHUP;
    if (s->rst && !s->err_reported) m |= EPOLLERR;
    return m;
}
static SockP mk_sock() {
    auto s = std::make_shared<Sock>();
    s->id = next_sock++;
    s->node = nd();
    return s;
}
static void freed_space(const SockP &s) {  // s consumed from rx: its peer may write again
    SockP p = s->peer.lock();
    if (p && p->nospace && sock_used(p) * 3 <= p->cap * 2) { p->nospace = false; arm_sock(p.get()); }
}
static bool fault_node() { return g_nf.on && nd() < 31; }
static u32 net_fault(double p_eintr, double p_short, double p_reset) {
    if (!fault_node() || (p_eintr <= 0 && p_short <= 0 && p_reset <= 0)) return 0;
    return decide(C_NET, 0, [&]() -> u32 {
        double x = S.rng.unit();
        u32 frac = (u32)S.rng.below(256);
        if ((x -= p_eintr) < 0) return 1;
        if ((x -= p_short) < 0) return 2 | frac << 8;
        if ((x -= p_reset) < 0) return 3;
        return 0;
    });
}
static void sigpipe(int flags) {
    if (flags & MSG_NOSIGNAL) return;
    auto &h = nsig[nd()].h;
    if (h.count(SIGPIPE) && h[SIGPIPE] != SIG_DFL) return;
    if (nd() < 31) violation("sigpipe", "node %d wrote to a broken connection without suppressing SIGPIPE: the process would be killed", nd());
}
extern "C" {
static long sock_write(FileP f, const void *buf, size_t n, int flags) {
    SockP s = f->sk;
    if (s->st != Sock::CONN) { sigpipe(flags); errno = s->st == Sock::NEW ? ENOTCONN : EPIPE; return -1; }
    u32 fv = net_fault(g_nf.p_eintr, g_nf.p_short, g_nf.p_reset);
    if ((fv & 0xff) == 1) { fault(FK_NET_EINTR); errno = EINTR; return -1; }
    if ((fv & 0xff) == 3) { note("connection %d reset during send", s->id); net_reset_conn(s); }
    for (;;) {
        if (s->rst) { if (!s->err_reported) { s->err_reported = true; errno = ECONNRESET; return -1; } sigpipe(flags); errno = EPIPE; return -1; }
        if (s->wr_shut) { sigpipe(flags); errno = EPIPE; return -1; }
        if (n == 0) return 0;
        u64 used = sock_used(s);
        if (used < s->cap) {
            SockP p = s->peer.lock();
            size_t k = std::min<u64>(n, s->cap - used);
            if (k < n) fault(FK_NET_SHORTSEND);
            if ((fv & 0xff) == 2 && k > 1) { k = frac_of(k, fv >> 8); fault(FK_NET_SHORTSEND); }
            std::string d((const char *)buf, k);
            s->total_out += k;
            s64 dl = net_delay();
            if (!p || p->st == Sock::CLOSED) {
                // peer is gone: data is accepted, then a reset comes back
                push_seg(s, "", 2, S.now + 2 * dl);
            } else push_seg(p, d, 0, S.now + dl);
            if (k < n) s->nospace = true;
            return (long)k;
        }
        s->nospace = true;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { fault(FK_NET_EAGAIN); errno = EAGAIN; return -1; }
        s64 dlm = s->sndtimeo > 0 ? S.now + s->sndtimeo : -1;
        int w = wait_sig([s]() { return s->rst || sock_used(s) < s->cap; }, dlm, "send");
        if (w == 1) { errno = EAGAIN; return -1; }
        if (w == 2) { errno = EINTR; return -1; }
    }
}
static long sock_read(FileP f, void *buf, size_t n, int flags) {
    SockP s = f->sk;
    if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
    u32 fv = net_fault(g_nf.p_eintr, g_nf.p_frag, 0);
    if ((fv & 0xff) == 1) { fault(FK_NET_EINTR); errno = EINTR; return -1; }
    for (;;) {
        if (!s->rx.empty()) {
            size_t k = std::min(n, s->rx.size());
            if ((fv & 0xff) == 2 && k > 1) { k = frac_of(k, fv >> 8); fault(FK_NET_FRAG); }
            if (n && (u64)buf < 4096) { errno = EFAULT; return -1; }
            memcpy(buf, s->rx.data(), k);
            if (!(flags & MSG_PEEK)) { s->rx.erase(0, k); s->total_in += k; freed_space(s); }
            return (long)k;
        }
        if (s->rst) { if (!s->err_reported) { s->err_reported = true; errno = ECONNRESET; return -1; } return 0; }
        if (s->fin_rx || n == 0) return 0;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        s64 dlm = s->rcvtimeo > 0 ? S.now + s->rcvtimeo : -1;
        int w = wait_sig([s]() { return s->rst || s->fin_rx || !s->rx.empty(); }, dlm, "recv");
        if (w == 1) { errno = EAGAIN; return -1; }
        if (w == 2) { errno = EINTR; return -1; }
    }
}
static void sock_close(SockP s) {
    if (s->st == Sock::LISTEN) {
        auto it = listeners.find(s->port);
        if (it != listeners.end() && it->second == s) listeners.erase(it);
        for (auto &c : s->acceptq) { SockP p = c->peer.lock(); c->st = Sock::CLOSED; send_rst_to(p); }
        s->acceptq.clear();
    } else if (s->st == Sock::CONN) {
        SockP p = s->peer.lock();
        s->st = Sock::CLOSED;
        if (p && !s->rst) {
            if (s->linger0 || !s->rx.empty()) send_rst_to(p);
            else {
                if (!s->wr_shut) push_seg(p, "", 1, S.now + 20000);
                if (!s->fin_rx) time_wait[s->port] = S.now + 60ll * 1000000000;
            }
        }
    }
    s->st = Sock::CLOSED;
}
int simc_socket(int, int type, int) {
    sysc(30);
    if (int e = call_fault("socket")) { errno = e; return -1; }
    auto f = std::make_shared<File>();
    f->k = File::SOCK;
    f->sk = mk_sock();
    if (type & SOCK_NONBLOCK) f->sk->nonblock = true;
    return fd_new(f);
}
int simc_setsockopt(int fd, int, int opt, const void *v, unsigned len) {
    R->syscalls++;
    if (int e = call_fault("setsockopt")) { errno = e; return -1; }
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    if ((opt == SO_REUSEADDR || opt == SO_REUSEPORT) && len >= 4) (opt == SO_REUSEADDR ? f->sk->reuseaddr : f->sk->reuseport) = *(const int *)v != 0;
    if (opt == SO_LINGER && len >= sizeof(struct linger)) { const struct linger *l = (const struct linger *)v; f->sk->linger0 = l->l_onoff && l->l_linger == 0; }
    if (opt == SO_SNDTIMEO || opt == SO_RCVTIMEO) {
        const struct timeval *t = (const struct timeval *)v;
        s64 ns = (s64)t->tv_sec * 1000000000 + (s64)t->tv_usec * 1000;
        if (t->tv_sec < 0) ns = 0;
        (opt == SO_SNDTIMEO ? f->sk->sndtimeo : f->sk->rcvtimeo) = ns > 0 ? ns : -1;
    }
    return 0;
}
int simc_getsockopt(int fd, int, int, void *v, unsigned *l) { FileP f = fd_get(fd); if (!f) { errno = EBADF; return -1; } memset(v, 0, *l); return 0; }
int simc_bind(int fd, const void *a, unsigned) {
    sysc(31);
    if (int e = call_fault("bind")) { errno = e; return -1; }
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    int port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    auto it = listeners.find(port);
    if (it != listeners.end() && !(it->second->reuseport && f->sk->reuseport)) { errno = EADDRINUSE; return -1; }
    if (!f->sk->reuseaddr && !f->sk->reuseport && nd() < 6) {
        auto tw = time_wait.find(port);
        if (tw != time_wait.end() && S.now < tw->second) { errno = EADDRINUSE; return -1; }
        for (auto &c : conns) if (auto k = c.lock()) if (k->st == Sock::CONN && k->port == port && !k->rst) { errno = EADDRINUSE; return -1; }
    }
    f->sk->port = port;
    f->sk->st = Sock::BOUND;
    return 0;
}
int simc_listen(int fd, int backlog) {
    sysc(32);
    if (int e = call_fault("listen")) { errno = e; return -1; }
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    auto it = listeners.find(f->sk->port);
    if (it != listeners.end() && !(it->second->reuseport && f->sk->reuseport)) { errno = EADDRINUSE; return -1; }
    f->sk->st = Sock::LISTEN;
    f->sk->backlog = backlog;
    listeners[f->sk->port] = f->sk;
    return 0;
}
int simc_accept(int fd, void *a, unsigned *l) {
    sysc(33);
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    SockP ls = f->sk;
    if (ls->st != Sock::LISTEN) { errno = EINVAL; return -1; }
    while (ls->acceptq.empty()) {
        if (ls->nonblock) { errno = EAGAIN; return -1; }
        if (wait_sig([ls]() { return !ls->acceptq.empty(); }, -1, "accept") == 2) { errno = EINTR; return -1; }
    }
    if (fault_node() && g_nf.p_accept > 0 && decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_accept); })) {
        fault(FK_ACCEPT_FAIL);
        SockP c = ls->acceptq.front();
        ls->acceptq.pop_front();
        SockP p = c->peer.lock();
        if (p) do_rst(p);
        errno = ECONNABORTED;
        return -1;
    }
    SockP c = ls->acceptq.front();
    ls->acceptq.pop_front();
    c->node = nd();
    if (nd() >= 0 && nd() < 64) g_net_accepted[nd()]++;
    auto nf = std::make_shared<File>();
    nf->k = File::SOCK;
    nf->sk = c;
    if (a && l) {
        struct sockaddr_in sa;
        memset(&sa, 0, sizeof sa);
        sa.sin_family = AF_INET;
        sa.sin_port = htons((unsigned short)c->peer_port);
        sa.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &sa, std::min<unsigned>(*l, sizeof sa));
    }
    return fd_new(nf);
}
int simc_accept4(int fd, void *a, unsigned *l, int fl) { int r = simc_accept(fd, a, l); if (r >= 0 && (fl & SOCK_NONBLOCK)) fd_get(r)->sk->nonblock = true; return r; }
int simc_connect(int fd, const void *a, unsigned) {
    sysc(34);
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    SockP s = f->sk;
    int port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    if (fault_node() && g_nf.p_refuse > 0 && decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_refuse); })) {
        fault(FK_NET_REFUSE);
        sim_sleep(40000);
        errno = ECONNREFUSED;
        return -1;
    }
    s64 d = net_delay();
    s64 dl = S.now + (s->sndtimeo > 0 ? s->sndtimeo : 127ll * 1000000000);
    sim_sleep(d);
    for (;;) {
        auto it = listeners.find(port);
        if (it == listeners.end()) { sim_sleep(20000); errno = ECONNREFUSED; return -1; }
        SockP ls = it->second;
        if ((int)ls->acceptq.size() <= ls->backlog) break;
        int w = wait_sig([ls]() { return ls->st != Sock::LISTEN || (int)ls->acceptq.size() <= ls->backlog; }, dl, "connect");
        if (w == 1) { errno = s->sndtimeo > 0 ? EINPROGRESS : ETIMEDOUT; return -1; }
        if (w == 2) { errno = EINTR; return -1; }
    }
    SockP ls = listeners[port];
    SockP c = std::make_shared<Sock>();
    c->id = next_sock++;
    c->node = ls->node;
    c->st = s->st = Sock::CONN;
    c->port = port;
    s->peer_port = port;
    s->port = c->peer_port = next_port++;
    c->peer = s;
    s->peer = c;
    if (g_nf.on && g_nf.cap_hi != g_nf.cap_lo) {
        u32 v = decide(C_NET, 65536, []() -> u32 { return (u32)(g_nf.cap_lo + S.rng.below(g_nf.cap_hi - g_nf.cap_lo)); });
        s->cap = v;
        v = decide(C_NET, 65536, []() -> u32 { return (u32)(g_nf.cap_lo + S.rng.below(g_nf.cap_hi - g_nf.cap_lo)); });
        c->cap = v;
    } else if (g_nf.on) s->cap = c->cap = g_nf.cap_lo;
    conns.push_back(s);
    conns.push_back(c);
    ls->acceptq.push_back(c);
    arm_sock(ls.get());
    sim_sleep(20000);
    return 0;
}
long simc_send(int fd, const void *buf, size_t n, int flags) {
    sysc(35);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k != File::SOCK) { errno = ENOTSOCK; return -1; }
    return sock_write(f, buf, n, flags);
}
long simc_recv(int fd, void *buf, size_t n, int flags) {
    sysc(36);
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->k != File::SOCK) { errno = ENOTSOCK; return -1; }
    return sock_read(f, buf, n, flags);
}
long simc_sendto(int fd, const void *b, size_t n, int fl, const void *, unsigned) { return simc_send(fd, b, n, fl); }
long simc_recvfrom(int fd, void *b, size_t n, int fl, void *, void *) { return simc_recv(fd, b, n, fl); }
long simc_sendmsg(int fd, const struct msghdr *m, int fl) {
    std::string s;
    for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return simc_send(fd, s.data(), s.size(), fl);
}
long simc_recvmsg(int fd, struct msghdr *m, int fl) { for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return simc_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl); return 0; }
int simc_shutdown(int fd, int how) {
    sysc(37);
    FileP f = fd_get(fd);
    if (!f || f->k != File::SOCK) { errno = EBADF; return -1; }
    SockP s = f->sk;
    if (s->st != Sock::CONN) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD && !s->wr_shut) { s->wr_shut = true; if (SockP p = s->peer.lock()) push_seg(p, "", 1, S.now + 20000); }
    if (how != SHUT_WR) s->fin_rx = true;
    return 0;
}
int simc_getsockname(int, void *, unsigned *) { return 0; }
int simc_getpeername(int, void *, unsigned *) { return 0; }
int simc_getaddrinfo(const char *host, const char *port, const struct addrinfo *, struct addrinfo **res) {
    sysc(38);
    if (host && strncmp(host, "bad", 3) == 0) return EAI_NONAME;
    auto *ai = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
    auto *sa = (struct sockaddr_in *)(ai + 1);
    sa->sin_family = AF_INET;
    sa->sin_port = htons((unsigned short)atoi(port ? port : "0"));
    ai->ai_family = AF_INET;
    ai->ai_socktype = SOCK_STREAM;
    ai->ai_addr = (struct sockaddr *)sa;
    ai->ai_addrlen = sizeof *sa;
    *res = ai;
    return 0;
}
void simc_freeaddrinfo(struct addrinfo *ai) { free(ai); }
// ------------------------------------------------------------------ readiness
static u32 file_mask(const FileP &f) {
    if (f->k == File::SOCK) return sock_mask(f->sk);
    if (f->k == File::EVENTFD) return (f->evcount ? EPOLLIN : 0) | EPOLLOUT;
    if (f->k == File::STD) { auto &q = g_stdin[f->node]; return q.pos < q.data.size() ? EPOLLIN : 0; }
    return EPOLLIN | EPOLLOUT;
}
int simc_epoll_create1(int) {
    sysc(40);
    if (int e = call_fault("epoll_create1")) { errno = e; return -1; }
    auto f = std::make_shared<File>();
    f->k = File::EPOLL;
    f->ep = std::make_shared<Epoll>();
    return fd_new(f);
}
int simc_epoll_create(int) { return simc_epoll_create1(0); }
int simc_eventfd(unsigned init, int flags) {
    sysc(41);
    if (int e = call_fault("eventfd")) { errno = e; return -1; }
    auto f = std::make_shared<File>();
    f->k = File::EVENTFD;
    f->evcount = init;
    if (flags & 04000) f->flags |= O_NONBLOCK;
    return fd_new(f);
}
int simc_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev) {
    sysc(42);
    if (int e = call_fault("epoll_ctl")) { errno = e; return -1; }
    FileP e = fd_get(efd);
    if (!e || e->k != File::EPOLL) { errno = EBADF; return -1; }
    FileP f = fd_get(fd);
    if (!f) { errno = EBADF; return -1; }
    auto &it = e->ep->items;
    if (op == EPOLL_CTL_DEL) {
        if (!it.erase(fd)) { errno = ENOENT; return -1; }
        return 0;
    }
    if (f->k == File::REG || f->k == File::DIR) { errno = EPERM; return -1; }
    if (op == EPOLL_CTL_ADD) {
        if (it.count(fd)) { errno = EEXIST; return -1; }
        auto i = std::make_shared<EpItem>();
        i->fd = fd;
        i->file = f;
        it[fd] = i;
        f->watchers.push_back(i);
        if (f->k == File::SOCK) f->sk->watchers.push_back(i);
    } else if (!it.count(fd)) { errno = ENOENT; return -1; }
    auto i = it[fd];
    i->events = ev->events;
    i->data = ev->data.u64;
    i->armed = true;
    i->seq = ++arm_seq;
    return 0;
}
static bool ep_ready(const std::shared_ptr<Epoll> &ep) {
    for (auto &kv : ep->items) {
        FileP f = kv.second->file.lock();
        if (!f) continue;
        u32 m = file_mask(f) & (kv.second->events | EPOLLERR | EPOLLHUP);
        if (m && (!(kv.second->events & EPOLLET) || kv.second->armed)) return true;
    }
    return false;
}
int simc_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout) {
    sysc(43);
    call_fault("epoll_wait");
    FileP e = fd_get(efd);
    if (!e || e->k != File::EPOLL) { errno = EBADF; return -1; }
    auto ep = e->ep;
    if (sig_take()) { errno = EINTR; return -1; }
    if (fault_node() && g_nf.p_eintr > 0 && decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_eintr * 0.3); })) {
        fault(FK_NET_EINTR);
        errno = EINTR;
        return -1;
    }
    net_advance();
    int w = 0;
    if (!ep_ready(ep)) {
        if (timeout == 0) return 0;
        if (timeout > 0) {
            s64 d = S.now + (s64)timeout * 1000000;
            w = wait_sig([ep]() { return ep_ready(ep); }, d, "epoll_wait");
        } else w = wait_sig([ep]() { return ep_ready(ep); }, -1, "epoll_wait");
    }
    if (w == 2) { errno = EINTR; return -1; }
    if (w == 1) return 0;
    std::vector<std::shared_ptr<EpItem>> v;
    for (auto &kv : ep->items) v.push_back(kv.second);
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a->seq < b->seq; });
    int n = 0;
    for (auto &i : v) {
        if (n >= max) break;
        FileP f = i->file.lock();
        if (!f) continue;
        u32 m = file_mask(f) & (i->events | EPOLLERR | EPOLLHUP);
        if (!m || ((i->events & EPOLLET) && !i->armed)) continue;
        i->armed = false;
        i->seq = ++arm_seq;
        evs[n].events = m;
        evs[n].data.u64 = i->data;
        n++;
    }
    return n;
}
int simc_epoll_pwait(int e, struct epoll_event *v, int m, int t, const void *) { return simc_epoll_wait(e, v, m, t); }
int simc_select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    sysc(44);
    if (sig_take()) { errno = EINTR; return -1; }
    if (fault_node() && g_nf.p_eintr > 0 && decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_eintr * 0.5); })) {
        fault(FK_NET_EINTR);
        errno = EINTR;
        return -1;
    }
    std::vector<std::pair<int, FileP>> rd, wr;
    for (int i = 0; i < nfds && i < 1024; i++) {
        if (r && FD_ISSET(i, r)) { FileP f = fd_get(i); if (!f) { errno = EBADF; return -1; } rd.push_back({i, f}); }
        if (w && FD_ISSET(i, w)) { FileP f = fd_get(i); if (!f) { errno = EBADF; return -1; } wr.push_back({i, f}); }
    }
    auto ready = [rd, wr]() {
        for (auto &p : rd) if (file_mask(p.second) & (EPOLLIN | EPOLLHUP | EPOLLERR)) return true;
        for (auto &p : wr) if (file_mask(p.second) & (EPOLLOUT | EPOLLERR)) return true;
        return false;
    };
    net_advance();
    int k = 0;
    if (!ready()) {
        s64 d = tv ? S.now + (s64)tv->tv_sec * 1000000000 + (s64)tv->tv_usec * 1000 : -1;
        k = wait_sig(ready, d, "select");
    }
    if (k == 2) { errno = EINTR; return -1; }
    if (r) FD_ZERO(r);
    if (w) FD_ZERO(w);
    if (x) FD_ZERO(x);
    int n = 0;
    for (auto &p : rd) if (file_mask(p.second) & (EPOLLIN | EPOLLHUP | EPOLLERR)) { FD_SET(p.first, r); n++; }
    for (auto &p : wr) if (file_mask(p.second) & (EPOLLOUT | EPOLLERR)) { FD_SET(p.first, w); n++; }
    return n;
}
int simc_poll(struct pollfd *p, unsigned long n, int timeout) {
    sysc(45);
    if (sig_take()) { errno = EINTR; return -1; }
    if (fault_node() && g_nf.p_eintr > 0 && decide(C_NET, 0, []() -> u32 { return S.rng.chance(g_nf.p_eintr * 0.5); })) { fault(FK_NET_EINTR); errno = EINTR; return -1; }
    std::vector<FileP> fs;
    for (unsigned long i = 0; i < n; i++) fs.push_back(p[i].fd < 0 ? nullptr : fd_get(p[i].fd));
    auto cnt = [fs, p, n]() {
        int k = 0;
        for (unsigned long i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            if (!fs[i]) { p[i].revents = POLLNVAL; k++; continue; }
            u32 m = file_mask(fs[i]);
            if ((m & EPOLLIN) && (p[i].events & POLLIN)) p[i].revents |= POLLIN;
            if ((m & EPOLLOUT) && (p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
            if ((m & EPOLLRDHUP) && (p[i].events & POLLRDHUP)) p[i].revents |= POLLRDHUP;
            if (m & EPOLLHUP) p[i].revents |= POLLHUP;
            if (m & EPOLLERR) p[i].revents |= POLLERR;
            if (p[i].revents) k++;
        }
        return k;
    };
    net_advance();
    int k = cnt();
    if (k || timeout == 0) return k;
    int w = wait_sig([cnt]() { return cnt() > 0; }, timeout < 0 ? -1 : S.now + (s64)timeout * 1000000, "poll");
    if (w == 2) { errno = EINTR; return -1; }
    return cnt();
}
int simc_pipe(int *) { errno = EMFILE; return -1; }
}
// ------------------------------------------------------------------ node death, harness peers
void io_node_died(int node) {
    auto t = fdt[node];
    fdt[node].clear();
    std::set<File *> seen;
    for (auto &kv : t)
        if (kv.second->k == File::SOCK && seen.insert(kv.second.get()).second) sock_close(kv.second->sk);
    nsig[node] = NodeSig();
}
void io_init() {
    root = mk_inode(true);
    fs_mkdirs("/sim");
    fs_mkdirs("/tmp");
    S.next_event = net_next;
    S.on_advance = net_advance;
}
bool net_listening(int port) { return listeners.count(port) > 0; }
int hp_connect(int port) {
    int fd = simc_socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in sa;
    memset(&sa, 0, sizeof sa);
    sa.sin_family = AF_INET;
    sa.sin_port = htons((unsigned short)port);
    if (simc_connect(fd, &sa, sizeof sa)) { simc_close(fd); return -1; }
    return fd;
}
bool hp_send(int fd, const std::string &s) {
    size_t o = 0;
    while (o < s.size()) {
        long k = simc_send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
        if (k < 0) { if (errno == EINTR) continue; return false; }
        o += (size_t)k;
    }
    return true;
}
SockP hp_sock(int fd) { FileP f = fd_get(fd); return f ? f->sk : nullptr; }
std::string hp_recv(int fd, size_t n, s64 timeout_ns, bool *eof) {
    std::string s;
    FileP f = fd_get(fd);
    if (eof) *eof = false;
    if (!f) { if (eof) *eof = true; return s; }
    SockP k = f->sk;
    s64 dl = timeout_ns < 0 ? -1 : S.now + timeout_ns;
    while (s.size() < n) {
        if (k->rx.empty() && !k->rst && !k->fin_rx) {
            if (wait_io([k]() { return !k->rx.empty() || k->rst || k->fin_rx; }, dl, "peer recv")) return s;
        }
        char b[4096];
        long r = simc_recv(fd, b, std::min(sizeof b, n - s.size()), 0);
        if (r <= 0) { if (r < 0 && errno == EINTR) continue; if (eof) *eof = true; return s; }
        s.append(b, (size_t)r);
    }
    return s;
}
