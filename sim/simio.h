// Simulated file system and network.
#pragma once
#include "sim.h"

struct Inode {
    int ino;
    bool dir = false;
    int memfd = -1;
    std::map<std::string, std::shared_ptr<Inode>> kids;
    s64 mtime = 0;
    ~Inode();
    u64 size() const;
    std::string content() const;
    void set_content(const std::string &);
};
typedef std::shared_ptr<Inode> InodeP;

struct Seg { s64 at; std::string data; int ctl; };  // ctl: 0 data, 1 FIN, 2 RST
struct File;
typedef std::shared_ptr<File> FileP;

struct Sock {
    int id;
    int node;
    enum St { NEW, BOUND, LISTEN, CONN, CLOSED } st = NEW;
    int port = 0, peer_port = 0;
    bool nonblock = false, linger0 = false, reuseaddr = false, reuseport = false;
    s64 sndtimeo = -1, rcvtimeo = -1;
    int backlog = 0;
    std::deque<std::shared_ptr<Sock>> acceptq;
    std::shared_ptr<Sock> listener;      // for pending
    std::weak_ptr<Sock> peer;
    std::deque<Seg> in;                  // in flight towards me
    u64 inflight = 0;
    s64 last_at = 0;
    std::string rx;
    bool fin_rx = false, rst = false, wr_shut = false, rd_shut = false, err_reported = false;
    bool nospace = false;
    u64 cap = 65536;
    bool silent = false;                 // link towards me is stalled (messages held)
    u64 total_in = 0, total_out = 0;
    std::vector<std::weak_ptr<struct EpItem>> watchers;
};
typedef std::shared_ptr<Sock> SockP;

struct EpItem {
    int fd;
    std::weak_ptr<File> file;
    u32 events;
    u64 data;
    bool armed = false;
    u64 seq = 0;
    int epnode;
};
struct Epoll { std::map<int, std::shared_ptr<EpItem>> items; };
struct File {
    enum K { REG, DIR, SOCK, EPOLL, EVENTFD, STD, PIPE_R, PIPE_W } k;
    int flags = 0;
    u64 off = 0;
    InodeP ino;
    std::string path;
    SockP sk;
    std::shared_ptr<Epoll> ep;
    u64 evcount = 0;
    std::vector<std::weak_ptr<EpItem>> watchers;
    int node = -1;
};

struct FsFaults {
    bool on = false;
    int node_mask = ~0;
    double p_short_read = 0, p_short_write = 0, p_eintr = 0, p_eio_r = 0, p_eio_w = 0, p_enospc = 0, p_open = 0, p_stat = 0, p_mmap = 0, p_mkdir = 0,
           p_close = 0, p_lseek = 0, p_unlink = 0, p_readdir = 0, p_lstat = 0;
    double p_crash = 0;
    std::function<bool(const std::string &)> path_filter;  // null = all
};
extern FsFaults g_ff;
u64 fs_used();               // bytes of all files
extern s64 g_disk_quota;      // total bytes allowed, <0 = unlimited
extern u64 g_fs_writes, g_fs_reads, g_fs_opens;
struct NetFaults {
    bool on = false;
    double p_delay = 0, p_frag = 0, p_short = 0, p_eintr = 0, p_reset = 0, p_refuse = 0, p_accept = 0, p_rstdrop = 0, p_conn_delay = 0, p_spurious_ready = 0;
    s64 delay_max_us = 5000;
    u64 cap_lo = 65536, cap_hi = 65536;
};
extern NetFaults g_nf;

// harness-side API
InodeP fs_lookup(const std::string &path);
InodeP fs_create(const std::string &path, const std::string &content);
void fs_mkdirs(const std::string &path);
bool fs_remove(const std::string &path);
std::vector<std::string> fs_list(const std::string &path);  // recursive file paths
std::string fs_read(const std::string &path);
InodeP fs_snapshot(InodeP root);
InodeP fs_root();
void fs_set_root(InodeP);
int node_fd_count(int node, int kind = -1);
std::string node_fd_desc(int node);
void io_node_died(int node);               // close everything of a crashed process
std::vector<SockP> all_conns();
void net_reset_conn(SockP);
void net_hold(SockP s, bool hold);         // hold delivery towards s
void io_init();
struct SimStdin {                     // standard input of a node: a pipe or a terminal
    bool tty = false;
    std::string data;
    size_t pos = 0;
    std::vector<int> plan;            // what the next reads give at most; -EINTR, -EIO: they fail
    size_t step = 0;
    u64 reads = 0;
};
extern std::map<int, SimStdin> g_stdin;
void tty_ready(int node);             // there is new input
extern std::map<std::string, std::string> g_env;   // environment variables of every node
bool net_listening(int port);
void sim_signal(int node, int sig);        // deliver a signal to a node's main thread; 0: one whose handler does nothing
extern u64 g_net_accepted[64];            // connections accepted so far, per node
void io_set_main(int node, int thr);
extern std::function<void(int node)> on_crash;   // called when a crash decision fires (before the node is killed)
void crash_now();
extern "C" {
int simc_socket(int, int, int);
int simc_connect(int, const void *, unsigned);
long simc_send(int, const void *, size_t, int);
long simc_recv(int, void *, size_t, int);
int simc_close(int);
int simc_setsockopt(int fd, int, int opt, const void *v, unsigned len);
int simc_bind(int, const void *, unsigned);
int simc_listen(int, int);
int simc_accept(int, void *, unsigned *);
int simc_shutdown(int, int);
}
int hp_connect(int port);                        // harness peer helpers (run on a sim thread)
bool hp_send(int fd, const std::string &);
std::string hp_recv(int fd, size_t n, s64 timeout_ns, bool *eof);  // reads exactly n unless eof/timeout
SockP hp_sock(int fd);
