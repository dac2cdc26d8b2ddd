#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <cmath>
#include <climits>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <ucontext.h>

RunResult *R;
Sim S;
std::map<u64, MapInfo> g_maps;
u64 g_live_map_bytes = 0;
std::function<bool(u64 len)> mem_fail_policy;
std::string g_out[64];
std::function<void(int, const char *, size_t)> g_out_hook;

const char *fault_names[FK_N] = {
    "preemption", "spurious_wakeup", "signal_pick", "thread_stall",
    "fs_short_read", "fs_short_write", "fs_eintr", "fs_eio", "fs_enospc", "fs_open_fail", "fs_stat_fail", "fs_mmap_fail",
    "process_crash", "torn_write", "bit_flip", "truncation",
    "net_fragment", "net_eagain", "net_short_send", "net_eintr", "net_reset", "net_fin", "net_delay", "net_stall", "net_refuse", "net_malformed",
    "mem_refused", "clock_jump", "sigint", "peer_silent", "accept_fail", "call_fail", "stdin_cut"};

// ------------------------------------------------------------------ reporting
void note(const char *fmt, ...) {
    if (R->nnote >= MAX_NOTE - 300) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(R->note + R->nnote, 280, fmt, ap);
    va_end(ap);
    if (n > 279) n = 279;
    R->nnote += n;
    if (R->nnote < MAX_NOTE - 2) { R->note[R->nnote++] = '\n'; R->note[R->nnote] = 0; }
}
static void seal() {
    R->accesses = S.A;
    R->sim_ns = S.now - S.t0;
}
void violation(const char *cls, const char *fmt, ...) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    seal();
    R->status = 1;
    _exit(0);
}
void harness_error(const char *fmt, ...) {
    snprintf(R->cls, sizeof R->cls, "harness");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    seal();
    R->status = 2;
    _exit(0);
}
void finish_ok() {
    seal();
    R->status = 0;
    _exit(0);
}

// ------------------------------------------------------------------ decisions
static void record(Cat c, u64 idx, u32 val) {
    if (R->ndec >= MAX_DEC) harness_error("too many decisions");
    Decision &d = R->dec[R->ndec++];
    d.cat = c; d.idx = idx; d.val = val;
}
u32 decide(Cat c, u32 dflt, const std::function<u32()> &policy) {
    u64 idx = S.cnt[c]++;
    u32 v;
    if (S.cf.replay) {
        auto it = S.replay_dec.find({(int)c, idx});
        v = it == S.replay_dec.end() ? dflt : it->second;
        if (v != dflt && R->ndec < MAX_DEC) record(c, idx, v);
    } else {
        v = R->ndec < MAX_DEC ? policy() : dflt;   // out of room: no further deviations in this run
        if (v != dflt) record(c, idx, v);
    }
    ev((u64)c << 56 | v);
    return v;
}

// ------------------------------------------------------------------ baton
static void fwait(u32 *f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fwake(u32 *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void refresh() {
    if (S.on_advance && S.next_event) {
        s64 e = S.next_event();
        if (e >= 0 && e <= S.now) S.on_advance();
    }
    for (auto &up : S.thr) {
        Thr *t = up.get();
        if (t->st == Thr::WAIT && ((t->pred && t->pred()) || (t->deadline >= 0 && t->deadline <= S.now))) {
            t->timedout = !(t->pred && t->pred());
            t->st = Thr::RUNNABLE;
        } else if (t->st == Thr::COND && t->deadline >= 0 && t->deadline <= S.now) {
            t->timedout = true;
            t->st = Thr::RUNNABLE;
        }
    }
}
static const char *stname(Thr::St s) {
    static const char *n[] = {"runnable", "mutex", "cond", "join", "wait", "done", "killed"};
    return n[s];
}
static void set_next_stop() {
    u64 force = S.last_switch_A + S.cf.sp.force_after;
    if (S.cf.replay) {
        while (S.replay_pos < S.replay_sched.size() && S.replay_sched[S.replay_pos] <= S.A) S.replay_pos++;
        u64 r = S.replay_pos < S.replay_sched.size() ? S.replay_sched[S.replay_pos] : ~0ull;
        S.next_stop = std::min(r, force);
    } else {
        u64 r = ~0ull;
        if (S.cf.sp.acc_mean && S.multi) {
            double u = S.rng.unit();
            r = S.A + 1 + (u64)(-std::log(1.0 - u) * (double)S.cf.sp.acc_mean);
        }
        for (u64 p : S.pct_at) if (p > S.A) { r = std::min(r, p); break; }
        S.next_stop = std::min(r, force);
    }
}
static void handoff(Thr *n) {
    Thr *me = S.cur;
    if (n == me) return;
    S.cur = n;
    S.last_switch_A = S.A;
    S.atomics_since_switch = 0;
    R->switches++;
    R->ihash = (R->ihash ^ ((u64)n->id + 31 * (u64)(me ? me->id : 99))) * 0x100000001B3ull;
    R->ihash ^= R->ihash >> 31;
    ev(0xabc0000 + n->id);
    bool park = me && (me->st == Thr::DONE || me->st == Thr::KILLED);
    fwake(&n->go);
    if (park) for (;;) pause();
    if (me) {
        int saved = errno;
        fwait(&me->go);
        errno = saved;
        if (me->st == Thr::KILLED) for (;;) pause();
    }
}
static Thr *rr_next() {
    int n = (int)S.thr.size(), base = S.cur ? S.cur->id : 0;
    for (int i = 1; i <= n; i++) {
        Thr *t = S.thr[(base + i) % n].get();
        if (t->st == Thr::RUNNABLE) return t;
    }
    return nullptr;
}
// pick next thread; cur_ok: current may continue; p: probability of considering a switch
static Thr *pick(bool cur_ok, double p, bool forced, bool fresh) {
    if (fresh) refresh();  // only at points that record and replay both reach
    Thr *d = cur_ok && !forced ? S.cur : rr_next();
    if (!d) return nullptr;
    u64 idx = S.A;
    if (S.cf.replay) {
        auto it = S.replay_dec.find({(int)C_SCHED, idx});
        if (it != S.replay_dec.end() && it->second < S.thr.size()) {
            Thr *t = S.thr[it->second].get();
            if (t->st == Thr::RUNNABLE) {
                if (t != d) { if (R->ndec < MAX_DEC) record(C_SCHED, idx, t->id); if (cur_ok) fault(FK_PREEMPT); }
                return t;
            }
        }
        return d;
    }
    if (R->ndec >= MAX_DEC) return d;
    Thr *t = d;
    SchedPolicy &sp = S.cf.sp;
    if (sp.pct) {
        static int low = -2000;
        if (forced) S.cur->prio = low--;
        while (!S.pct_at.empty() && S.pct_at.front() <= S.A) {
            S.pct_at.erase(S.pct_at.begin());
            S.cur->prio = -(int)(1000 - S.pct_at.size());
        }
        int best = INT_MIN;
        Thr *b = nullptr;
        for (auto &up : S.thr)
            if (up->st == Thr::RUNNABLE && !(forced && up.get() == S.cur) && up->prio > best) { best = up->prio; b = up.get(); }
        if (b) t = b;
    } else if (!cur_ok || forced || S.rng.chance(p)) {
        std::vector<Thr *> c, c2;
        for (auto &up : S.thr)
            if (up->st == Thr::RUNNABLE && !(forced && up.get() == S.cur)) {
                c2.push_back(up.get());
                if (up->stall_until <= S.A) c.push_back(up.get());
            }
        if (c.empty()) c = c2;
        if (!c.empty()) t = c[S.rng.below(c.size())];
        if (sp.p_stall > 0 && cur_ok && t != S.cur && S.rng.chance(sp.p_stall)) {
            S.cur->stall_until = S.A + S.rng.below(sp.stall_len);
            fault(FK_STALL);
        }
    }
    if (t != d) { record(C_SCHED, idx, t->id); if (cur_ok) fault(FK_PREEMPT); }
    return t;
}
static void deadlock() {
    std::string m;
    char b[160];
    for (auto &t : S.thr) {
        snprintf(b, sizeof b, "[t%d n%d %s %s]", t->id, t->node, stname(t->st), t->what);
        m += b;
    }
    violation("deadlock", "no thread can make progress: %s", m.c_str());
}
// run scheduler when current is blocked
static void schedule_blocked() {
    for (;;) {
        S.A++;
        Thr *n = pick(false, 1.0, false, true);
        if (n) {
            if (n == S.cur) return;
            handoff(n);
            set_next_stop();
            return;
        }
        // advance time
        s64 t = -1;
        for (auto &up : S.thr)
            if ((up->st == Thr::WAIT || up->st == Thr::COND) && up->deadline >= 0) t = t < 0 ? up->deadline : std::min(t, up->deadline);
        if (S.next_event) {
            s64 e = S.next_event();
            if (e >= 0) t = t < 0 ? e : std::min(t, e);
        }
        if (t < 0) deadlock();
        if (t > S.now) S.now = t;
        if (S.on_advance) S.on_advance();
        if (++R->steps > 3000000) violation("livelock", "simulated time keeps advancing without any thread making progress");
    }
}
static void consider(double p);
static void slow_stop() {
    if (!S.started) { S.next_stop = ~0ull; return; }
    if (S.A > S.cf.max_steps) {
        std::string m;
        char b[200];
        for (auto &t : S.thr) { snprintf(b, sizeof b, "[t%d n%d %s %s]", t->id, t->node, stname(t->st), t->what); m += b; }
        violation("step_limit", "run did not finish within %llu steps: %s", (unsigned long long)S.cf.max_steps, m.c_str());
    }
    consider(1.0);
}
// a possible preemption of the running thread, outside synchronisation points
static bool forced_due() {
    return S.A >= S.last_switch_A + S.cf.sp.force_after || S.atomics_since_switch > S.cf.sp.force_atomics;
}
static void consider(double p) {
    if (S.cur->node < 0) { if (forced_due()) { S.last_switch_A = S.A; S.atomics_since_switch = 0; } set_next_stop(); return; }
    bool forced = forced_due();
    if (forced) S.now += 1000;
    Thr *n = pick(true, p, forced, forced);
    if (forced) { S.last_switch_A = S.A; S.atomics_since_switch = 0; }
    if (n && n != S.cur) handoff(n);
    set_next_stop();
}
void sim_point(int kind) {
    if (!S.started) return;
    S.A++;
    S.now += 150;
    R->sched_points++;
    ev((u64)kind << 8 | (u64)S.cur->id);
    if (!S.multi) return;
    Thr *n = pick(true, S.cf.sp.p_sync, false, true);
    if (n && n != S.cur) handoff(n);
    set_next_stop();
}
void sim_atomic_point(void *addr) {
    (void)addr;
    if (!S.started) return;
    S.A++;
    if (!S.multi) return;
    S.atomics_since_switch++;
    if (S.A >= S.next_stop || forced_due()) { slow_stop(); return; }
    if (S.cf.replay) return;
    R->sched_points++;
    if (S.rng.chance(S.cf.sp.p_sync)) consider(1.0);
}
void sim_yield() { sim_point(77); }
bool sim_block(Thr::St st, s64 deadline) {
    S.cur->st = st;
    S.cur->deadline = deadline;
    S.cur->timedout = false;
    schedule_blocked();
    return S.cur->timedout;
}
bool sim_wait(std::function<bool()> pred, s64 deadline, const char *what) {
    sim_point(5);
    if (pred && pred()) return false;
    if (deadline >= 0 && deadline <= S.now) return true;
    S.cur->pred = pred;
    S.cur->what = what;
    bool to = sim_block(Thr::WAIT, deadline);
    S.cur->pred = nullptr;
    S.cur->what = "";
    return to;
}
void sim_sleep(s64 ns) { sim_wait(nullptr, S.now + ns, "sleep"); }

static const u64 STK = 1 << 20;
static void *thr_main(void *p) {
    Thr *t = (Thr *)p;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = malloc(65536);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    fwait(&t->go);
    if (t->st == Thr::KILLED) for (;;) pause();
    if (t->fn) t->ret = t->fn(t->arg);
    else t->body();
    t->st = Thr::DONE;
    for (auto &up : S.thr)
        if (up->st == Thr::JOIN && up->join_id == t->id) up->st = Thr::RUNNABLE;
    schedule_blocked();
    for (;;) pause();
    return nullptr;
}
static int spawn_raw(int node, void *(*fn)(void *), void *arg, std::function<void()> body) {
    auto t = std::make_unique<Thr>();
    t->id = (int)S.thr.size();
    t->node = node;
    t->fn = fn;
    t->arg = arg;
    t->body = body;
    t->prio = (int)S.rng.below(1000) + 1;
    t->stack = arena_map(STK, PROT_READ | PROT_WRITE);
    g_maps.erase((u64)t->stack);
    g_live_map_bytes -= STK;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stack, STK);
    pthread_t h;
    if (pthread_create(&h, &at, thr_main, t.get()) != 0) harness_error("pthread_create: %s", strerror(errno));
    t->pth = (unsigned long)h;
    int id = t->id;
    S.thr.push_back(std::move(t));
    S.multi = true;
    return id;
}
int sim_spawn(int node, std::function<void()> body) { return spawn_raw(node, nullptr, nullptr, body); }
bool sim_thread_done(int id) { return S.thr[id]->st == Thr::DONE || S.thr[id]->st == Thr::KILLED; }
void sim_kill_node(int node) {
    bool self = false;
    for (auto &t : S.thr)
        if (t->node == node && t->st != Thr::DONE) {
            t->st = Thr::KILLED;
            if (t.get() == S.cur) self = true;
        }
    if (self) {
        schedule_blocked();
        for (;;) pause();
    }
}
int cur_node() { return S.cur ? S.cur->node : -1; }

void sim_run(std::function<void()> driver) {
    S.started = true;
    int id = sim_spawn(-1, [driver]() {
        driver();
        finish_ok();
    });
    S.cur = S.thr[id].get();
    set_next_stop();
    fwake(&S.cur->go);
    for (;;) pause();
}
void sim_draw_policy(bool heavy) {
    SchedPolicy &sp = S.cf.sp;
    Rng &r = S.rng;
    switch (r.below(6)) {
        case 0: sp.p_sync = 0.5; sp.acc_mean = 200; break;
        case 1: sp.p_sync = 0.1; sp.acc_mean = 3000; break;
        case 2: sp.p_sync = 0.02; sp.acc_mean = 50000; break;
        case 3: sp.p_sync = 0.3; sp.acc_mean = 0; break;
        case 4: sp.pct = true; sp.p_sync = 1.0; sp.acc_mean = 0; sp.pct_points = (int)r.range(1, 6);
                sp.pct_len = (u64)1 << r.range(8, heavy ? 21 : 16);
                for (int i = 0; i < sp.pct_points; i++) S.pct_at.push_back(1 + r.below(sp.pct_len));
                std::sort(S.pct_at.begin(), S.pct_at.end());
                break;
        case 5: sp.p_sync = 0.2; sp.acc_mean = 20000; sp.p_stall = 0.3; sp.stall_len = (u64)1 << r.range(6, 20); break;
    }
    if (heavy && sp.acc_mean && sp.acc_mean < 2000) sp.acc_mean *= 10;
    sp.p_spurious = r.chance(0.3) ? 0.2 : 0.0;
    S.use_conf = r.chance(0.5);
    sp.p_conf = S.use_conf ? (r.chance(0.5) ? 0.02 : 0.2) / (heavy ? 30 : 1) : 0;
}

// ------------------------------------------------------------------ crash handlers
static void on_sig(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = (ucontext_t *)uc;
    snprintf(R->cls, sizeof R->cls, "crash");
    u64 *bp = (u64 *)u->uc_mcontext.gregs[REG_RBP];
    char b[400];
    int n = 0;
    n += snprintf(b + n, sizeof b - n, " pc=0x%llx", (unsigned long long)u->uc_mcontext.gregs[REG_RIP]);
    u64 sp = (u64)u->uc_mcontext.gregs[REG_RSP];
    for (int i = 0; i < 8 && (u64)bp > sp && (u64)bp < sp + (1 << 20); i++) {
        if ((u64)bp & 7) break;
        n += snprintf(b + n, sizeof b - n, " 0x%llx", (unsigned long long)bp[1]);
        u64 *nb = (u64 *)bp[0];
        if (nb <= bp) break;
        bp = nb;
    }
    snprintf(R->msg, sizeof R->msg, "node %d thread %d died of signal %d (fault address 0x%llx)%s", S.cur ? S.cur->node : -1,
             S.cur ? S.cur->id : -1, sig, (unsigned long long)si->si_addr, b);
    seal();
    R->status = (S.cur && S.cur->node >= 0) ? 1 : 2;
    _exit(0);
}
void sim_install_handlers() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ memory seam
static const u64 ARENA = 0x100000000000ull;
static u64 arena_cur = ARENA;
void *arena_map(u64 len, int prot) {
    u64 l = (len + 4095) & ~4095ull;
    u64 a = arena_cur;
    arena_cur += l + 16 * 4096;
    arena_cur = (arena_cur + 0xffff) & ~0xffffull;
    void *p = mmap((void *)a, l, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) harness_error("arena mmap %llu: %s", (unsigned long long)l, strerror(errno));
    g_maps[a] = MapInfo{l, cur_node(), 0};
    g_live_map_bytes += l;
    return p;
}
void *arena_map_fd(u64 len, int prot, int flags, int fd, u64 off) {
    u64 l = (len + 4095) & ~4095ull;
    u64 a = arena_cur;
    arena_cur += l + 16 * 4096;
    arena_cur = (arena_cur + 0xffff) & ~0xffffull;
    int fl = (flags & MAP_SHARED) && !(flags & MAP_PRIVATE) ? MAP_SHARED : MAP_PRIVATE;
    void *p = mmap((void *)a, l, prot, fl | MAP_NORESERVE | MAP_FIXED_NOREPLACE, fd, (off_t)off);
    if (p == MAP_FAILED) return p;
    g_maps[a] = MapInfo{l, cur_node(), fl == MAP_SHARED ? 2 : 1};
    g_live_map_bytes += l;
    return p;
}
void *fs_mmap(int fd, u64 len, int prot, int flags, u64 off);  // net/fs layer
void fs_munmap(u64 addr, u64 len);

int call_fault(const char *call) {
    int e = S.call_fault ? S.call_fault(cur_node(), call) : 0;
    if (e) { fault(FK_CALL_FAIL); note("%s fails", call); }
    return e;
}
extern "C" {
void *simc_mmap(void *addr, size_t len, int prot, int flags, int fd, long off) {
    (void)addr;
    R->syscalls++;
    if (!(flags & MAP_ANONYMOUS)) return fs_mmap(fd, len, prot, flags, (u64)off);
    if (len == 0) { errno = EINVAL; return MAP_FAILED; }
    if (int e = flags & MAP_HUGETLB ? 0 : call_fault("mmap")) { errno = e; return MAP_FAILED; }
    if (flags & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
    if (prot != PROT_NONE && mem_fail_policy && mem_fail_policy(len)) {
        fault(FK_MEM_FAIL);
        errno = ENOMEM;
        return MAP_FAILED;
    }
    if (len > (1ull << 40)) { errno = ENOMEM; return MAP_FAILED; }
    return arena_map(len, prot);
}
int simc_munmap(void *addr, size_t len) {
    R->syscalls++;
    u64 a = (u64)addr;
    if (a & 4095) { errno = EINVAL; return -1; }
    u64 l = (len + 4095) & ~4095ull;
    fs_munmap(a, l);
    auto it = g_maps.find(a);
    if (it == g_maps.end()) {
        // not a live mapping start: kernel would unmap whatever is there; find the container
        auto up = g_maps.upper_bound(a);
        if (up != g_maps.begin()) {
            --up;
            if (a < up->first + up->second.len) {  // partial unmap
                munmap(addr, l);
                return 0;
            }
        }
        return 0;
    }
    if (l < it->second.len) {
        MapInfo mi = it->second;
        g_maps.erase(it);
        mi.len -= l;
        g_maps[a + l] = mi;
        g_live_map_bytes -= l;
    } else {
        g_live_map_bytes -= it->second.len;
        l = it->second.len;
        g_maps.erase(it);
    }
    munmap(addr, l);
    return 0;
}
int simc_mprotect(void *addr, size_t len, int prot) {
    R->syscalls++;
    if (int e = call_fault("mprotect")) { errno = e; return -1; }
    return mprotect(addr, len, prot);
}
int simc_madvise(void *, size_t, int) { return 0; }
int simc_msync(void *, size_t, int) { return 0; }
void *simc_mremap(void *old, size_t ol, size_t nl, int) {
    void *p = arena_map(nl, PROT_READ | PROT_WRITE);
    memcpy(p, old, ol < nl ? ol : nl);
    simc_munmap(old, ol);
    return p;
}

// ------------------------------------------------------------------ threads seam
int simc_pthread_create(pthread_t *h, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    sim_point(10);
    if (int e = call_fault("pthread_create")) return e;
    int id = spawn_raw(cur_node(), fn, arg, nullptr);
    *h = (pthread_t)(u64)(id + 1);
    sim_point(11);
    return 0;
}
int simc_pthread_join(pthread_t h, void **ret) {
    sim_point(12);
    int id = (int)(u64)h - 1;
    if (id < 0 || id >= (int)S.thr.size()) return ESRCH;
    while (!sim_thread_done(id)) {
        S.cur->join_id = id;
        S.cur->what = "pthread_join";
        sim_block(Thr::JOIN, -1);
        S.cur->what = "";
    }
    if (ret) *ret = S.thr[id]->ret;
    return 0;
}
int simc_pthread_detach(pthread_t) { return 0; }
int simc_pthread_cancel(pthread_t) { return 0; }
pthread_t simc_pthread_self(void) { return (pthread_t)(u64)(S.cur->id + 1); }
int simc_pthread_setaffinity_np(pthread_t, size_t, const void *) { return call_fault("pthread_setaffinity"); }
int simc_pthread_getaffinity_np(pthread_t, size_t n, void *c) { memset(c, 0xff, n); return 0; }
int simc_pthread_mutex_init(pthread_mutex_t *m, const void *) { memset(m, 0, sizeof *m); return 0; }
int simc_pthread_mutex_destroy(pthread_mutex_t *m) { S.mutex_owner.erase(m); return 0; }
static void lock_raw(void *m, const char *what) {
    while (S.mutex_owner.count(m)) {
        if (S.mutex_owner[m] == S.cur->id) { S.cur->what = "self-deadlock on mutex"; }
        else S.cur->what = what;
        S.cur->obj = m;
        sim_block(Thr::MUTEX, -1);
    }
    S.cur->what = "";
    S.mutex_owner[m] = S.cur->id;
}
int simc_pthread_mutex_lock(pthread_mutex_t *m) {
    sim_point(13);
    lock_raw(m, "mutex_lock");
    return 0;
}
int simc_pthread_mutex_trylock(pthread_mutex_t *m) {
    sim_point(14);
    if (S.mutex_owner.count(m)) return EBUSY;
    S.mutex_owner[m] = S.cur->id;
    return 0;
}
static void unlock_raw(void *m) {
    auto it = S.mutex_owner.find(m);
    if (it == S.mutex_owner.end() || it->second != S.cur->id) return;
    S.mutex_owner.erase(it);
    for (auto &t : S.thr)
        if (t->st == Thr::MUTEX && t->obj == m) t->st = Thr::RUNNABLE;
}
int simc_pthread_mutex_unlock(pthread_mutex_t *m) {
    unlock_raw(m);
    sim_point(15);
    return 0;
}
int simc_pthread_cond_init(pthread_cond_t *c, const void *) { memset(c, 0, sizeof *c); return 0; }
int simc_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cond_wait_impl(void *c, void *m, s64 deadline) {
    u32 sp = decide(C_SYNC, 0, []() { return S.cf.sp.p_spurious > 0 && S.rng.chance(S.cf.sp.p_spurious) ? 1u : 0u; });
    bool to = false;
    S.cur->obj = c;
    S.cur->what = "cond_wait";
    unlock_raw(m);
    if (sp) {
        fault(FK_SPURIOUS);
        // wake spuriously after a while: stays runnable
        sim_point(16);
    } else {
        to = sim_block(Thr::COND, deadline);
    }
    lock_raw(m, "cond relock");
    return to ? ETIMEDOUT : 0;
}
int simc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_impl(c, m, -1); }
int simc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    return cond_wait_impl(c, m, (s64)ts->tv_sec * 1000000000 + ts->tv_nsec - S.real_off);
}
int simc_pthread_cond_signal(pthread_cond_t *c) {
    std::vector<Thr *> w;
    for (auto &t : S.thr)
        if (t->st == Thr::COND && t->obj == c) w.push_back(t.get());
    if (!w.empty()) {
        u32 k = w.size() == 1 ? 0 : decide(C_SYNC, 0, [&]() { return (u32)S.rng.below(w.size()); });
        if (k) fault(FK_SIGNAL_PICK);
        w[k % w.size()]->st = Thr::RUNNABLE;
    }
    sim_point(17);
    return 0;
}
int simc_pthread_cond_broadcast(pthread_cond_t *c) {
    for (auto &t : S.thr)
        if (t->st == Thr::COND && t->obj == c) t->st = Thr::RUNNABLE;
    sim_point(18);
    return 0;
}
void simc_pthread_exit(void *r) {
    S.cur->ret = r;
    S.cur->st = Thr::DONE;
    for (auto &up : S.thr)
        if (up->st == Thr::JOIN && up->join_id == S.cur->id) up->st = Thr::RUNNABLE;
    schedule_blocked();
    for (;;) pause();
}
int simc_sched_yield(void) { sim_point(19); return 0; }

// ------------------------------------------------------------------ clocks
int simc_clock_gettime(int clk, struct timespec *ts) {
    R->syscalls++;
    S.now += 50;
    s64 t = S.now + (clk == CLOCK_REALTIME ? S.real_off : 0);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
long simc_time(long *p) {
    long t = (long)((S.now + S.real_off) / 1000000000);
    if (p) *p = t;
    return t;
}
int simc_gettimeofday(struct timeval *tv, void *) {
    s64 t = S.now + S.real_off;
    tv->tv_sec = t / 1000000000;
    tv->tv_usec = (t / 1000) % 1000000;
    return 0;
}
int simc_nanosleep(const struct timespec *ts, struct timespec *) {
    sim_sleep((s64)ts->tv_sec * 1000000000 + ts->tv_nsec);
    return 0;
}
unsigned simc_sleep(unsigned s) { sim_sleep((s64)s * 1000000000); return 0; }
int simc_usleep(unsigned us) { sim_sleep((s64)us * 1000); return 0; }
long simc_sysconf(int n) {
    if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 64;
    return sysconf(n);
}
int simc_getpid(void) { return 4242 + cur_node(); }
static u64 rnd_state = 88172645463325252ull;
long simc_random(void) { rnd_state ^= rnd_state << 13; rnd_state ^= rnd_state >> 7; rnd_state ^= rnd_state << 17; return (long)(rnd_state & 0x7fffffff); }
int simc_rand(void) { return (int)simc_random(); }
void simc_srand(unsigned s) { rnd_state = s * 2654435761u + 88172645463325252ull; }
long simc_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)simc_random(); return (long)n; }
void simc_exit(int code) {
    int n = cur_node();
    ev(0xe0000 + code);
    if (S.on_exit && S.on_exit(n, code)) {
        sim_kill_node(n);
        for (;;) pause();
    }
    violation("unexpected_exit", "node %d called exit(%d); last output: %s", n, code, g_out[n < 0 ? 63 : n].substr(g_out[n < 0 ? 63 : n].size() > 300 ? g_out[n < 0 ? 63 : n].size() - 300 : 0).c_str());
}
void simc_abort(void) {
    int n = cur_node();
    violation("abort", "node %d aborted; last output: %s", n, g_out[n < 0 ? 63 : n].substr(g_out[n < 0 ? 63 : n].size() > 300 ? g_out[n < 0 ? 63 : n].size() - 300 : 0).c_str());
}
void simc___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    violation("assert", "assertion failed: %s (%s:%u %s)", e, f, l, fn);
}
// ------------------------------------------------------------------ stdio capture
static void cap(const char *s, size_t n) {
    int k = cur_node();
    std::string &o = g_out[k < 0 ? 63 : k];
    if (o.size() < 2000000) o.append(s, n);
    if (g_out_hook && k >= 0) g_out_hook(k, s, n);
}
int simc_vfprintf(FILE *f, const char *fmt, va_list ap) {
    char *p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    if (n > 0) { if (f == stdout || f == stderr) cap(p, n); }
    free(p);
    return n;
}
int simc_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = simc_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int simc_vprintf(const char *fmt, va_list ap) { return simc_vfprintf(stdout, fmt, ap); }
int simc_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = simc_vfprintf(f, fmt, ap); va_end(ap); return n; }
int simc_puts(const char *s) { cap(s, strlen(s)); cap("\n", 1); return 1; }
int simc_fputs(const char *s, FILE *) { cap(s, strlen(s)); return 1; }
int simc_putchar(int c) { char ch = (char)c; cap(&ch, 1); return c; }
int simc_fputc(int c, FILE *) { return simc_putchar(c); }
size_t simc_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) cap((const char *)p, s * n); return n; }
int simc_fflush(FILE *) { return 0; }
void simc_perror(const char *s) { cap(s, strlen(s)); cap("\n", 1); }
FILE *simc_fopen(const char *, const char *) { errno = ENOENT; return nullptr; }
FILE *simc_popen(const char *, const char *) { errno = ENOENT; return nullptr; }
int simc_pclose(FILE *) { return -1; }
int simc_fclose(FILE *) { return 0; }
char *simc_fgets(char *, int, FILE *) { return nullptr; }
char *simc_getcwd(char *b, size_t n) { snprintf(b, n, "/sim"); return b; }
}

// ------------------------------------------------------------------ shadow heap
// One byte per 16 bytes of arena: what the program's own allocator says about it.
static const u64 ARENA_LEN = 1ull << 42;
static u8 *g_shadow;
HeapStat g_heap[64];
bool g_heap_check = true;
static std::map<int, std::pair<u64, u64>> re_pending;  // thread -> old block
enum { RE_BIG = 512 };
enum : u8 { SH_NONE = 0, SH_LIVE = 1, SH_PEND = 2, SH_HEAD = 3, SH_FREED = 4 };
static inline u8 *sh(u64 a) { return g_shadow + ((a - ARENA) >> 4); }
static inline bool in_arena(u64 a) { return a - ARENA < ARENA_LEN; }
void shadow_init() {
    g_shadow = (u8 *)mmap(nullptr, ARENA_LEN >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_shadow == MAP_FAILED) harness_error("shadow map");
}
static u64 sh_extent(u64 a) {
    u8 *p = sh(a), *q = p + 1;
    while (*q == SH_LIVE) q++;
    return (u64)(q - p);
}
static std::map<u64, std::string> g_trace;
static u64 trace_addr() { static u64 v = getenv("SIM_TRACE_PTR") ? strtoull(getenv("SIM_TRACE_PTR"), 0, 16) : 0; return v; }
// debugging aid: SIM_LEAKS=1 remembers where every live allocation was made
static const bool lk_on = getenv("SIM_LEAKS") != nullptr;
static std::map<u64, std::pair<u64, std::string>> *lk_map;
static u64 lk_seq;
u64 leak_mark() { return lk_seq; }
void leak_report(u64 from) {
    if (!lk_on || !lk_map) return;
    for (auto &kv : *lk_map) if (kv.second.first > from) fprintf(stderr, "live %llx #%llu:%s\n", (unsigned long long)kv.first, (unsigned long long)kv.second.first, kv.second.second.c_str());
}
static __attribute__((noinline)) void lk_add(u64 a) {
    if (!lk_map) lk_map = new std::map<u64, std::pair<u64, std::string>>();
    u64 *bp = (u64 *)__builtin_frame_address(0);
    std::string t;
    for (int i = 0; i < 14; i++) { u64 *nb = (u64 *)bp[0]; if (i > 1) { char b[40]; snprintf(b, sizeof b, " 0x%llx", (unsigned long long)bp[1]); t += b; } if (nb <= bp || (u64)nb - (u64)bp > 1 << 19) break; bp = nb; }
    (*lk_map)[a] = {++lk_seq, t};
}
static void sh_mark_alloc(u64 a, u64 n) {
    u64 k = (n + 15) >> 4;
    u8 *p = sh(a);
    for (u64 i = 0; i < k; i++)
        if (p[i] == SH_LIVE || p[i] == SH_HEAD)
            violation("heap_overlap", "heap handed out [%llx,+%llu) to thread %d (node %d) while bytes at +%llu belong to a live allocation",
                      (unsigned long long)a, (unsigned long long)n, S.cur ? S.cur->id : -1, cur_node(), (unsigned long long)(i * 16));
    p[0] = SH_HEAD;
    memset(p + 1, SH_LIVE, k - 1);
    if (p[k] == SH_LIVE) p[k] = SH_FREED;
}
extern "C" void simc_on_alloc(void *ptr, long long n, int) {
    u64 a = (u64)ptr;
    if (trace_addr() && a <= trace_addr() && trace_addr() < a + (u64)n) { fprintf(stderr, "alloc %llx n=%lld t%d A=%llu\n", (unsigned long long)a, n, S.cur?S.cur->id:-1, (unsigned long long)S.A); }
    if (lk_on) lk_add(a);
    if (!in_arena(a)) { violation("heap_overlap", "heap returned %p outside any mapping", ptr); }
    int nd = cur_node();
    if (nd >= 0) { g_heap[nd].live++; g_heap[nd].bytes += n; g_heap[nd].allocs++; }
    if (!g_heap_check) return;
    if (a & 15) violation("heap_misaligned", "heap returned misaligned %p", ptr);
    sh_mark_alloc(a, (u64)n);
    memset(ptr, 0xC7, n < 65536 ? n : 65536);
}
static void sh_bad_free(u64 a) {
    u8 s = *sh(a);
    violation(s == SH_FREED ? "double_free" : "bad_free", "thread %d (node %d) freed %llx which is %s", S.cur ? S.cur->id : -1, cur_node(), (unsigned long long)a,
              s == SH_FREED ? "already free" : s == SH_LIVE ? "inside a live allocation" : "not an allocation");
}
extern "C" void simc_on_free(void *ptr) {
    u64 a = (u64)ptr;
    if (trace_addr() == a) fprintf(stderr, "free %llx t%d A=%llu\n", (unsigned long long)a, S.cur?S.cur->id:-1, (unsigned long long)S.A);
    if (!in_arena(a)) return;
    if (lk_on && lk_map) lk_map->erase(a);
    int nd = cur_node();
    u8 s = *sh(a);
    if (s == SH_NONE) return;  // file mapping or foreign memory: not the heap's
    if (!g_heap_check) { if (nd >= 0) g_heap[nd].live--; return; }
    if (s != SH_HEAD) sh_bad_free(a);
    u64 k = sh_extent(a);
    if (nd >= 0) { g_heap[nd].live--; g_heap[nd].frees++; }
    memset(sh(a), SH_FREED, k);
    if (k > 1) memset((u8 *)ptr + 16, 0xDB, (k - 1) * 16 < 4096 ? (k - 1) * 16 : 4096);
}
extern "C" void simc_on_realloc(void *p, void *q, long long n) {
    int nd = cur_node(), t = S.cur ? S.cur->id : -1;
    u64 a = (u64)p;
    if (!g_heap_check) return;
    if (n == 0 && q == nullptr) {
        re_pending.erase(t);
        if (!p || !in_arena(a) || *sh(a) == SH_NONE) return;
        if (*sh(a) != SH_HEAD) sh_bad_free(a);
        u64 k = 1;
        while (k <= RE_BIG && sh(a)[k] == SH_LIVE) k++;
        if (k > RE_BIG) { re_pending[t] = {a, 0}; *sh(a) = SH_PEND; return; }  // a big block: only its head, so that growing text stays linear
        re_pending[t] = {a, k};
        memset(sh(a), SH_PEND, k);
        return;
    }
    auto it = re_pending.find(t);
    if (it != re_pending.end() && it->second.second == 0) {
        u8 *s0 = sh(a);
        bool mine = *s0 == SH_PEND;
        if (q == p) {  // resized in place: move the end of the block only
            re_pending.erase(it);
            u64 k = ((u64)n + 15) >> 4;
            if (!k) k = 1;
            *s0 = SH_HEAD;
            if (k == 1 || s0[k - 1] == SH_LIVE) { for (u64 i = k; s0[i] == SH_LIVE; i++) s0[i] = SH_FREED; }
            else {
                for (u64 i = k - 1; i > 0 && s0[i] != SH_LIVE; i--) {
                    if (s0[i] == SH_HEAD) violation("heap_overlap", "heap grew %p to %lld bytes over a live allocation at +%llu (node %d)", p, n, (unsigned long long)(i * 16), nd);
                    s0[i] = SH_LIVE;
                }
            }
            return;
        }
        if (mine) { s0[0] = SH_FREED; for (u64 i = 1; s0[i] == SH_LIVE; i++) s0[i] = SH_FREED; }
        it->second.second = 1;
    }
    if (it != re_pending.end()) {
        for (u64 i = 0; i < it->second.second; i++) if (sh(a)[i] == SH_PEND) sh(a)[i] = SH_FREED;
        re_pending.erase(it);
        if (!q && nd >= 0) g_heap[nd].live--;
    } else if (q && nd >= 0) g_heap[nd].live++;
    if (lk_on && lk_map && p) lk_map->erase((u64)p);
    if (lk_on && q) lk_add((u64)q);
    if (q) sh_mark_alloc((u64)q, (u64)n);
}
extern "C" int simc_hvsnprintf(char *b, unsigned long n, const char *f, va_list ap) { return vsnprintf(b, n, f, ap); }
static __attribute__((noinline)) void uaf(void *p, bool w, void *pc) {
    u64 *bp = (u64 *)__builtin_frame_address(0);
    char b[300]; int n = snprintf(b, sizeof b, " 0x%llx", (unsigned long long)pc);
    for (int i = 0; i < 7; i++) { u64 *nb = (u64 *)bp[0]; n += snprintf(b + n, sizeof b - n, " 0x%llx", (unsigned long long)bp[1]); if (nb <= bp || (u64)nb - (u64)bp > 1 << 19) break; bp = nb; }
    violation("use_after_free", "thread %d (node %d) %s freed heap memory at %p; stack%s", S.cur ? S.cur->id : -1, cur_node(), w ? "writes" : "reads", p, b);
}
static inline __attribute__((always_inline)) void shcheck(void *p, bool w) {
    if (in_arena((u64)p) && *sh((u64)p) == SH_FREED && S.started && S.cur->node >= 0 && g_heap_check) uaf(p, w, __builtin_return_address(0));
}
// ------------------------------------------------------------------ instrumentation hooks
static u8 conf_tab[1 << 16];
static inline __attribute__((always_inline)) void hook(void *p, bool w) {
    if (++S.A >= S.next_stop) { slow_stop(); return; }
    if (S.use_conf && S.multi && S.started) {
        u8 *c = &conf_tab[((u64)p >> 3) & 0xffff];
        u8 me = (u8)(S.cur->id + 1);
        if (*c && (*c & 0x7f) != me) {
            if (!S.cf.replay && S.rng.chance(S.cf.sp.p_conf)) {
                // conflicting access: last writer was another thread
                if (w) *c = me;
                slow_stop();
                return;
            }
        }
        if (w) *c = me;
    }
}
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW1(FAM, N, CHK) \
    void __##FAM##_read##N(void *p) { CHK(p, false); hook(p, false); } \
    void __##FAM##_write##N(void *p) { CHK(p, true); hook(p, true); } \
    void __##FAM##_read_write##N(void *p) { CHK(p, true); hook(p, true); } \
    void __##FAM##_unaligned_read##N(void *p) { CHK(p, false); hook(p, false); } \
    void __##FAM##_unaligned_write##N(void *p) { CHK(p, true); hook(p, true); } \
    void __##FAM##_unaligned_read_write##N(void *p) { CHK(p, true); hook(p, true); } \
    void __##FAM##_volatile_read##N(void *p) { CHK(p, false); hook(p, false); } \
    void __##FAM##_volatile_write##N(void *p) { CHK(p, true); hook(p, true); } \
    void __##FAM##_unaligned_volatile_read##N(void *p) { CHK(p, false); hook(p, false); } \
    void __##FAM##_unaligned_volatile_write##N(void *p) { CHK(p, true); hook(p, true); }
#define NOCHK(p, w) (void)0
#define RWF(FAM, CHK) RW1(FAM, 1, CHK) RW1(FAM, 2, CHK) RW1(FAM, 4, CHK) RW1(FAM, 8, CHK) RW1(FAM, 16, CHK) \
void __##FAM##_read_range(void *p, unsigned long) { CHK(p, false); hook(p, false); } \
void __##FAM##_write_range(void *p, unsigned long) { CHK(p, true); hook(p, true); } \
void *__##FAM##_memcpy(void *d, const void *s, unsigned long n) { if (n) { CHK(d, true); CHK((u8 *)d + n - 1, true); CHK((void *)s, false); CHK((u8 *)s + n - 1, false); } hook(d, true); return memcpy(d, s, n); } \
void *__##FAM##_memmove(void *d, const void *s, unsigned long n) { if (n) { CHK(d, true); CHK((u8 *)d + n - 1, true); CHK((void *)s, false); CHK((u8 *)s + n - 1, false); } hook(d, true); return memmove(d, s, n); } \
void *__##FAM##_memset(void *d, int c, unsigned long n) { if (n) { CHK(d, true); CHK((u8 *)d + n - 1, true); } hook(d, true); return memset(d, c, n); }
RWF(tsan, shcheck)
RWF(tsanh, NOCHK)
#define AT(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T *a, int) { sim_atomic_point((void *)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##BITS##_store(volatile T *a, T v, int) { sim_atomic_point((void *)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_exchange(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_nand(volatile T *a, T v, int) { sim_atomic_point((void *)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { sim_atomic_point((void *)a); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { sim_atomic_point((void *)a); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T e, T v, int, int) { sim_atomic_point((void *)a); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
