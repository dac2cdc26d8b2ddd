// Deterministic simulator core: scheduler, virtual time, memory, decisions.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>

typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    s64 range(s64 lo, s64 hi) { return lo + (s64)below((u64)(hi - lo + 1)); }  // inclusive
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- run result (in shared memory)
enum Cat : u8 { C_SCHED = 0, C_FS, C_NET, C_MEM, C_SYNC, C_TIME, C_MISC, C_NCAT };
struct Decision { u8 cat; u8 pad[3]; u32 val; u64 idx; };
static const u32 MAX_DEC = 400000;
static const u32 MAX_NOTE = 6000;

enum Fault : int {
    FK_PREEMPT = 0, FK_SPURIOUS, FK_SIGNAL_PICK, FK_STALL,
    FK_FS_SHORT_READ, FK_FS_SHORT_WRITE, FK_FS_EINTR, FK_FS_EIO, FK_FS_ENOSPC, FK_FS_OPENFAIL, FK_FS_STATFAIL, FK_FS_MMAPFAIL,
    FK_CRASH, FK_TORN, FK_BITFLIP, FK_TRUNCATE,
    FK_NET_FRAG, FK_NET_EAGAIN, FK_NET_SHORTSEND, FK_NET_EINTR, FK_NET_RESET, FK_NET_FIN, FK_NET_DELAY, FK_NET_STALL, FK_NET_REFUSE, FK_NET_MALFORMED,
    FK_MEM_FAIL, FK_CLOCK_JUMP, FK_SIGINT, FK_PEER_SILENT, FK_ACCEPT_FAIL, FK_CALL_FAIL, FK_STDIN,
    FK_N
};
extern const char *fault_names[FK_N];

struct RunResult {
    volatile int status;       // -1 running, 0 ok, 1 violation, 2 harness error
    char cls[160];             // violation class (kept stable while minimising)
    char msg[4096];
    u64 hash;                  // hash of the event log
    u64 ihash;                 // hash of the context-switch sequence
    u64 accesses, switches, sched_points, syscalls, steps;
    s64 sim_ns;
    u64 faults[FK_N];
    u64 probes[32];
    u32 nops;                  // ops in the workload before filtering
    u32 ndec;
    u32 nnote;
    char desc[2048];           // human description of workload
    char note[MAX_NOTE];
    Decision dec[MAX_DEC];
};
extern RunResult *R;

// ---------------------------------------------------------------- simulator
struct Thr {
    int id = 0;
    int node = -1;
    enum St { RUNNABLE, MUTEX, COND, JOIN, WAIT, DONE, KILLED } st = RUNNABLE;
    void *obj = nullptr;           // mutex/cond waited for
    void *mtx = nullptr;           // mutex to reacquire after cond
    s64 deadline = -1;             // absolute sim ns, -1 none
    bool timedout = false;
    int join_id = -1;
    std::function<bool()> pred;    // WAIT: ready predicate
    u32 go = 0;                    // futex
    void *(*fn)(void *) = nullptr;
    std::function<void()> body;
    void *arg = nullptr;
    void *ret = nullptr;
    int prio = 0;
    u64 stall_until = 0;           // A index until which it is not picked
    unsigned long pth = 0;
    void *stack = nullptr;
    bool spurious = false;
    std::vector<u32> vc;
    const char *what = "";
};

struct SchedPolicy {
    double p_sync = 0.1;       // switch at sync points
    double p_conf = 0.0;       // switch at conflicting plain accesses
    u64 acc_mean = 20000;      // mean accesses between random preemptions (0 = never)
    bool pct = false;
    int pct_points = 3;
    u64 pct_len = 100000;
    double p_spurious = 0.0;
    double p_stall = 0.0;
    u64 stall_len = 20000;
    u64 force_after = 3000000; // forced round robin (default rule)
    u32 force_atomics = 600;
};

struct SimConf {
    u64 seed = 1;
    bool replay = false;
    SchedPolicy sp;
    u64 max_steps = 8000000000ull;
};

struct Sim {
    SimConf cf;
    Rng rng{1};
    std::vector<std::unique_ptr<Thr>> thr;
    Thr *cur = nullptr;
    s64 now = 1700000000ll * 1000000000ll;
    s64 t0 = now;
    s64 real_off = 0;               // wall clock skew (REALTIME only)
    u64 A = 0;                      // access / point counter
    u64 next_stop = ~0ull;
    u64 last_switch_A = 0;
    u32 atomics_since_switch = 0;
    u64 cnt[C_NCAT] = {0};
    std::map<std::pair<int, u64>, u32> replay_dec;
    std::vector<u64> replay_sched;  // sorted indices
    size_t replay_pos = 0;
    std::vector<u64> pct_at;
    bool started = false;
    bool multi = false;             // more than one live thread
    bool use_conf = false;
    std::map<void *, int> mutex_owner;  // mutex -> thread id (held)
    std::function<void()> on_advance;   // called when time jumps (net delivery etc.)
    std::function<s64()> next_event;    // next timed event (abs ns) or -1
    std::function<int(int node, const char *call)> call_fault;  // error number a call is to fail with, 0: none
    std::function<bool(int node, int code)> on_exit;  // node called exit(); true = accepted
    bool ended = false;
};
extern Sim S;

// per-category decisions
u32 decide(Cat c, u32 dflt, const std::function<u32()> &policy);
inline void ev(u64 x) {  // event log hash
    R->hash = (R->hash ^ x) * 0x100000001B3ull;
    R->hash ^= R->hash >> 29;
}
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fault(int k) { R->faults[k]++; }
inline void probe(int k) { R->probes[k]++; }

void sim_point(int kind);                   // scheduling point (sync op / syscall)
void sim_atomic_point(void *addr);
bool sim_block(Thr::St st, s64 deadline);   // block current; returns true if timed out
bool sim_wait(std::function<bool()> pred, s64 deadline, const char *what);  // true = timed out
int sim_spawn(int node, std::function<void()> body);
void sim_kill_node(int node);               // abrupt process death
int call_fault(const char *call);
void sim_sleep(s64 ns);
void sim_yield();
void sim_run(std::function<void()> driver); // runs everything; never returns normally
bool sim_thread_done(int id);
void sim_install_handlers();
void sim_draw_policy(bool heavy);

// memory arena
struct MapInfo { u64 len; int node; int kind; };  // kind: 0 anon, 1 file private, 2 file shared
extern std::map<u64, MapInfo> g_maps;
void *arena_map(u64 len, int prot);
extern u64 g_live_map_bytes;
int cur_node();

// hooks used by mem
extern std::function<bool(u64 len)> mem_fail_policy;
// what the program's allocator has handed out, per node
struct HeapStat { s64 live = 0, bytes = 0, allocs = 0, frees = 0; };
extern HeapStat g_heap[64];
extern bool g_heap_check;
void shadow_init();
// stdout capture per node
extern std::string g_out[64];
extern std::function<void(int node, const char *p, size_t n)> g_out_hook;   // called with every piece of output; must not block
// debugging: live allocations made since a mark, on stderr (only with SIM_LEAKS set)
u64 leak_mark();
void leak_report(u64 from);
