// Parallel execution: the worker pool, symbols, the allocator, reference counts, parallel evaluation.
#include "gen.h"
#include <algorithm>
extern "C" u64 n0_str_hash(const char *, s64) __attribute__((weak));

static s64 live_objs(int node) { return g_heap[node].live; }
static Node *P;
// ================================================================== C02
namespace c02 {
struct Batch { std::vector<int> hits; std::vector<int> kinds; int id; bool started = false; };
static std::deque<Batch> all;
static int inflight_max, inflight;
static void *task(void *bp, void *ip, void *) {
    Batch *b = (Batch *)bp;
    s64 i = (s64)ip;
    if (!b->started) violation("task_early", "batch %d: task %lld was executed while the batch was still being assembled, before its run", b->id, (long long)i);
    if (++inflight > inflight_max) inflight_max = inflight;
    b->hits[(size_t)i]++;
    if (b->hits[(size_t)i] > 1) violation("task_ran_twice", "batch %d: task %lld ran %d times", b->id, (long long)i, b->hits[(size_t)i]);
    void *res;
    switch (b->kinds[(size_t)i]) {
        case 1: for (int k = 0; k < 3; k++) sim_point(60); res = P->a->mk_i64(i * 7 + b->id); break;
        case 2: { void *m = P->a->halloc(40 + i % 5000); sim_point(61); P->a->hfree(m); res = P->a->mk_i64(i * 7 + b->id); break; }
        case 3: res = P->a->mk_err(); break;
        case 4: { for (int k = 0; k < 40; k++) sim_point(62); res = P->a->mk_i64(i * 7 + b->id); break; }
        default: res = P->a->mk_i64(i * 7 + b->id);
    }
    inflight--;
    return res;
}
struct MapCtx { std::vector<int> seen; };
static void *map_fn(s64 len, s64 off, void *c) {
    MapCtx *m = (MapCtx *)c;
    if (len < 0 || off < 0 || off + len > (s64)m->seen.size()) violation("map_range", "a parallel map called its function on [%lld,+%lld) of %zu elements", (long long)off, (long long)len, m->seen.size());
    for (s64 i = 0; i < len; i++) m->seen[(size_t)(off + i)]++;
    sim_point(63);
    return P->a->mk_i64(1);
}
}
SCENARIO(C02, "worker pool: every task exactly once, results in order, errors surface, no lost wake-up") {
    using namespace c02;
    sim_draw_policy(false);
    int workers = (int)w.pick(std::vector<int>{1, 2, 2, 3, 4, 4, 6, 8});
    int nops = (int)w.range(2, 12);
    bool huge = w.chance(0.06);
    if (huge) nops = (int)w.range(2, 3);
    describe("workers=%d batches=%d:", workers, nops);
    struct Op { int kind; int n; std::vector<int> kinds; int pause; };
    std::vector<Op> ops;
    for (int o = 0; o < nops; o++) {
        Op op;
        op.kind = w.chance(0.15) ? 1 : 0;
        op.n = w.chance(0.5) ? (int)w.range(1, workers * 2) : (int)w.range(1, 40);
        if (w.chance(0.04)) op.n = 0;
        if (huge) op.n = (int)w.range(2030, w.chance(0.3) ? 9000 : 2100);
        if (op.kind == 1) op.n = (int)w.pick(std::vector<int>{1, 100, 16383, 16384, 16385, 20000, 50001});
        int prof = (int)w.below(5);
        for (int i = 0; i < op.n && op.kind == 0; i++) op.kinds.push_back(prof == 0 ? 0 : prof == 1 ? (w.chance(0.1) ? 3 : 0) : prof == 2 ? (i == 0 ? 4 : 0) : (int)w.pick(std::vector<int>{0, 1, 2, 2, 4}));
        op.pause = w.chance(0.4) ? (int)w.range(1, 50) : 0;
        ops.push_back(op);
        describe(" %s%d", op.kind ? "map" : "", op.n);
    }
    int before = 0;
    on_node(0, [&]() {
        Node n(0);
        P = &n;
        n.create({"-c", std::to_string(workers)});
        before = (int)S.thr.size();
        if (n.a->pool_executors() != workers) violation("executors", "asked for %d executors, got %lld", workers, n.a->pool_executors());
        s64 base = -1;
        for (auto &op : ops) {
            if (!op_keep()) continue;
            if (op.kind == 1) {
                MapCtx m;
                m.seen.assign((size_t)op.n, 0);
                n.a->pool_map(op.n, (void *)map_fn, &m);
                for (int i = 0; i < op.n; i++)
                    if (m.seen[(size_t)i] != 1) violation("map_coverage", "parallel map over %d elements visited element %d %d times", op.n, i, m.seen[(size_t)i]);
            } else {
                all.emplace_back();
                Batch &b = all.back();
                b.id = (int)all.size();
                b.hits.assign((size_t)op.n, 0);
                b.kinds = op.kinds;
                n.a->pool_prepare();
                for (int i = 0; i < op.n; i++) n.a->pool_add((void *)task, &b, (void *)(s64)i, nullptr);
                b.started = true;
                void *res = n.a->pool_run();
                bool err = std::count(op.kinds.begin(), op.kinds.end(), 3) > 0;
                for (int i = 0; i < op.n; i++)
                    if (b.hits[(size_t)i] != 1) violation("task_count", "batch %d of %d tasks: when the run returned, task %d had been executed %d times", b.id, op.n, i, b.hits[(size_t)i]);
                if (inflight) violation("task_running", "batch %d returned while %d tasks were still running", b.id, inflight);
                if (err) {
                    if (!n.is_err(res)) violation("error_lost", "batch %d: a task failed but the run returned a value", b.id);
                } else {
                    if (n.a->type(res) != T_LIST || n.a->len(res) != op.n) violation("result_shape", "batch %d: result has type %d length %lld, expected a list of %d", b.id, n.a->type(res), n.a->len(res), op.n);
                    for (int i = 0; i < op.n; i++) {
                        s64 v = n.a->atom_i64(n.a->list_at(res, i));
                        if (v != i * 7 + b.id) violation("result_order", "batch %d: result %d is %lld, expected %d", b.id, i, (long long)v, i * 7 + b.id);
                    }
                }
                n.a->drop(res);
            }
            if (n.a->rc_sync()) violation("sync_mode", "reference counting stayed in shared mode after a parallel run");
            if (base < 0) base = live_objs(0);
            for (int i = 0; i < op.pause; i++) sim_point(64);
        }
        if (w.chance(0.5)) for (int i = 0; i < 30; i++) sim_point(64);
        bool stop = w.chance(0.25);
        if (stop) n.a->destroy();
        if (stop) for (auto &t : S.thr) if (t->node == 0 && t.get() != S.cur && t->st != Thr::DONE) violation("worker_left", "worker thread t%d still exists after the runtime was destroyed", t->id);
    });
    R->probes[0] += (u64)inflight_max;
    if (huge) probe(1);
}
// ================================================================== C03
namespace c03 {
struct Rec { int task; u32 str; s64 id; };
static std::vector<std::string> pool_;
static std::vector<std::vector<u32>> plan;
static std::vector<Rec> log_;
static std::vector<s64> known;
static void *task(void *ip, void *, void *) {
    s64 t = (s64)ip;
    for (u32 k : plan[(size_t)t]) {
        const std::string &s = pool_[k];
        s64 id = P->a->intern(s.data(), (s64)s.size());
        log_.push_back({(int)t, k, id});
        if (known[k] >= 0 && known[k] != id) violation("symbol_split", "string #%u (%zu bytes) has two identities: %lld and %lld", k, s.size(), (long long)known[k], (long long)id);
        known[k] = id;
        const char *b = P->a->symstr(id);
        if (!b || s != std::string(b)) violation("symbol_text", "symbol %lld of string #%u (%zu bytes) reads back %s", (long long)id, k, s.size(), b ? "a different text" : "nothing");
    }
    return P->a->mk_i64(t);
}
}
SCENARIO(C03, "symbols interned concurrently: one identity per text, one text per identity") {
    using namespace c03;
    sim_draw_policy(false);
    if (w.chance(0.5)) { S.cf.sp.p_sync = 0.4; }
    int workers = (int)w.range(2, 6);
    int rounds = (int)w.range(1, 3);
    int nstr = (int)w.pick(std::vector<int>{3, 8, 40, 150});
    bool longs = w.chance(0.3);
    // texts that fall in one hash bucket, so that several threads contend for it
    if (n0_str_hash && w.chance(0.7)) {
        std::map<u64, std::string> seen;
        u64 salt = w.next() % 1000000;
        for (int i = 0; i < 30000 && pool_.size() < (size_t)nstr; i++) {
            std::string s = strf("k%llu_%d", (unsigned long long)salt, i);
            u64 h = n0_str_hash(s.data(), (s64)s.size()) % (4096ull * 1024);
            auto it = seen.find(h);
            if (it != seen.end()) { pool_.push_back(it->second); pool_.push_back(s); }
            else seen[h] = s;
        }
        probe(0);
    }
    while ((int)pool_.size() < nstr) {
        std::string s = strf("s%llu", (unsigned long long)w.below(1000000));
        if (longs) { u64 L = w.pick(std::vector<u64>{1, 100, 1000, 4090, 4096, 5000, 9000}); while (s.size() < L) s += (char)('a' + w.below(26)); }
        if (w.chance(0.1)) s = std::string(1, (char)('!' + w.below(90)));
        pool_.push_back(s);
    }
    std::sort(pool_.begin(), pool_.end());
    pool_.erase(std::unique(pool_.begin(), pool_.end()), pool_.end());
    int tasks = workers * 2;
    describe("workers=%d rounds=%d strings=%zu tasks=%d%s", workers, rounds, pool_.size(), tasks, longs ? " long" : "");
    known.assign(pool_.size(), -1);
    std::vector<std::vector<std::vector<u32>>> plans;
    for (int q = 0; q < rounds; q++) {
        std::vector<std::vector<u32>> pl((size_t)tasks);
        for (auto &v : pl) { int m = (int)w.range(1, 30); for (int i = 0; i < m; i++) v.push_back((u32)w.below(pool_.size())); }
        if (w.chance(0.5)) for (auto &v : pl) v = pl[0];
        plans.push_back(pl);
    }
    on_node(0, [&]() {
        Node n(0);
        P = &n;
        n.create({"-c", std::to_string(workers)});
        s64 c0 = n.a->symcount();
        for (int q = 0; q < rounds; q++) {
            plan.assign((size_t)tasks, {});
            for (int t = 0; t < tasks; t++) for (u32 k : plans[(size_t)q][(size_t)t]) if (op_keep()) plan[(size_t)t].push_back(k);
            n.a->pool_prepare();
            for (int t = 0; t < tasks; t++) n.a->pool_add((void *)task, (void *)(s64)t, nullptr, nullptr);
            n.a->drop(n.a->pool_run());
        }
        // history: a bijection between texts and identities, stable afterwards
        std::map<s64, u32> by;
        std::set<u32> used;
        for (auto &r : log_) {
            auto it = by.find(r.id);
            if (it != by.end() && it->second != r.str) violation("symbol_merge", "identity %lld stands for two different texts", (long long)r.id);
            by[r.id] = r.str;
            used.insert(r.str);
        }
        for (auto &r : log_) {
            s64 id = n.a->intern(pool_[r.str].data(), (s64)pool_[r.str].size());
            if (id != r.id) violation("symbol_unstable", "string #%u was %lld while running in parallel and is %lld afterwards", r.str, (long long)r.id, (long long)id);
            const char *b = n.a->symstr(r.id);
            if (!b || pool_[r.str] != b) violation("symbol_text", "symbol %lld changed its text", (long long)r.id);
        }
        s64 c1 = n.a->symcount();
        s64 fresh = 0;
        for (auto &kv : by) if (kv.first >= c0) fresh++;
        if (c1 - c0 != fresh) violation("symbol_count", "%lld distinct new texts were interned but the table grew by %lld", (long long)fresh, (long long)(c1 - c0));
        if (w.chance(0.2)) n.a->destroy();
    });
}
// ================================================================== C04
namespace c04 {
struct Blk { void *p; s64 n; u8 pat; };
struct Act { int kind; s64 n; int slot; };           // 0 alloc 1 free 2 realloc 3 hand over
static std::vector<std::vector<Act>> plan;
static std::vector<std::vector<Blk>> slots;          // per task
static std::vector<Blk> shared;                      // handed over between threads
static void fill(Blk &b) {
    u8 *p = (u8 *)b.p;
    s64 m = b.n < 6000 ? b.n : 6000;
    memset(p, b.pat, (size_t)m);
    if (b.n > m) memset(p + b.n - 64, b.pat, 64);
}
static void verify(const Blk &b, s64 upto, const char *when, bool moved = false) {
    u8 *p = (u8 *)b.p;
    s64 m = upto < 6000 ? upto : 6000;
    for (s64 i = 0; i < m; i++) if (p[i] != b.pat) violation("content_lost", "%s: byte %lld of a %lld-byte block reads 0x%02x, was written 0x%02x", when, (long long)i, (long long)b.n, p[i], b.pat);
    if (!moved && upto == b.n && b.n > 6000) for (s64 i = b.n - 64; i < b.n; i++) if (p[i] != b.pat) violation("content_lost", "%s: byte %lld of a %lld-byte block changed", when, (long long)i, (long long)b.n);
}
static u8 pat_next;
static void act(std::vector<Blk> &sl, const Act &a);
static void burst(std::vector<Blk> &sl, const Act &a) {   // many blocks of one size at once: caches of small blocks overflow
    int k = 20 + a.slot % 130;
    if (a.kind == 6) { for (int i = 0; i < k; i++) act(sl, {0, a.n, 0}); }
    else if (a.kind == 7) { for (int i = 0; i < k; i++) act(sl, {1, 0, a.slot + i * 7}); }
    else { for (int i = 0; i < k; i++) act(sl, {i % 3 == 2 ? 4 : 3, 0, a.slot + i}); }
}
static void act(std::vector<Blk> &sl, const Act &a) {
    if (a.kind >= 6) { burst(sl, a); return; }
    switch (a.kind) {
        case 0: {
            Blk b = {P->a->halloc(a.n), a.n, ++pat_next};
            if (!b.p) violation("alloc_null", "allocation of %lld bytes failed although memory was available", (long long)a.n);
            fill(b);
            sl.push_back(b);
            break;
        }
        case 1:
            if (sl.empty()) break;
            { size_t i = (size_t)a.slot % sl.size(); Blk b = sl[i]; sl[i] = sl.back(); sl.pop_back(); verify(b, b.n, "before free"); P->a->hfree(b.p); }
            break;
        case 2:
            if (sl.empty()) break;
            {
                Blk &b = sl[(size_t)a.slot % sl.size()];
                verify(b, b.n, "before realloc");
                s64 o = b.n;
                b.p = P->a->hrealloc(b.p, a.n);
                if (!b.p) violation("alloc_null", "reallocation to %lld bytes failed although memory was available", (long long)a.n);
                b.n = a.n;
                verify(b, o < a.n ? o : a.n, "after realloc", true);
                fill(b);
            }
            break;
        case 3:
            if (sl.empty()) break;
            { size_t i = (size_t)a.slot % sl.size(); shared.push_back(sl[i]); sl[i] = sl.back(); sl.pop_back(); }
            break;
        case 4:
            if (shared.empty()) break;
            { size_t i = (size_t)a.slot % shared.size(); Blk b = shared[i]; shared[i] = shared.back(); shared.pop_back(); verify(b, b.n, "before foreign free"); P->a->hfree(b.p); }
            break;
        case 5:
            if (shared.empty()) break;
            { size_t i = (size_t)a.slot % shared.size(); Blk b = shared[i]; shared[i] = shared.back(); shared.pop_back(); s64 o = b.n; b.p = P->a->hrealloc(b.p, a.n); b.n = a.n; if (!b.p) violation("alloc_null", "realloc failed"); verify(b, o < a.n ? o : a.n, "after foreign realloc", true); fill(b); sl.push_back(b); }
            break;
    }
}
static void *task(void *ip, void *, void *) {
    size_t t = (size_t)(s64)ip;
    for (auto &a : plan[t]) { act(slots[t], a); sim_point(65); }
    return P->a->mk_i64(1);
}
static s64 size_of(Rng &w, int prof) {
    switch (prof) {
        case 0: return w.range(1, 600);
        case 1: return (s64)1 << w.range(4, 13);
        case 2: return w.range(1000, 200000);
        case 3: return w.chance(0.05) ? w.range(20000000, 40000000) : w.range(500000, 9000000);
        default: return w.chance(0.7) ? w.range(1, 300) : w.range(1, 100000);
    }
}
}
SCENARIO(C04, "allocator across threads: live blocks never overlap, contents survive, memory is conserved") {
    using namespace c04;
    sim_draw_policy(false);
    int workers = (int)w.range(1, 6);
    int rounds = (int)w.range(1, 8);
    int prof = (int)w.below(5);
    bool bursts = w.chance(0.5);
    describe("workers=%d rounds=%d sizes=%d%s", workers, rounds, prof, bursts ? " bursts" : "");
    auto mk = [&](std::vector<Act> &v, int m) {
        int bias = (int)w.below(3);
        for (int i = 0; i < m; i++) {
            if (bursts && prof != 3 && w.chance(0.25)) {
                s64 n = prof == 2 ? w.range(1, 400) : size_of(w, prof);
                v.push_back({(int)w.pick(std::vector<int>{6, 6, 7, 8}), n > 5000 ? w.range(1, 480) : n, (int)w.below(1000)});
                continue;
            }
            int k = (int)w.pick(bias == 0 ? std::vector<int>{0, 0, 0, 1, 2, 3, 4} : bias == 1 ? std::vector<int>{0, 1, 0, 1, 4, 4, 5} : std::vector<int>{0, 1, 1, 1, 2, 3, 4, 5});
            v.push_back({k, size_of(w, prof), (int)w.below(1000)});
        }
    };
    int tasks = workers + (int)w.below(3);
    std::vector<std::vector<Act>> mains((size_t)rounds), betw((size_t)rounds);   // before the parallel run is prepared; before it starts
    std::vector<std::vector<std::vector<Act>>> pls((size_t)rounds);
    std::vector<int> gcs;
    for (int q = 0; q < rounds; q++) {
        mk(mains[(size_t)q], (int)w.range(0, 30));
        if (w.chance(0.5)) mk(betw[(size_t)q], (int)w.range(1, 12));
        pls[(size_t)q].resize((size_t)tasks);
        for (auto &v : pls[(size_t)q]) mk(v, (int)w.range(1, 25));
        gcs.push_back(w.chance(0.3));
    }
    on_node(0, [&]() {
        Node n(0);
        P = &n;
        n.create({"-c", std::to_string(workers)});
        std::vector<Blk> mine;
        slots.assign((size_t)tasks, {});
        s64 live0 = live_objs(0);
        for (int q = 0; q < rounds; q++) {
            for (auto &a : mains[(size_t)q]) if (op_keep()) act(mine, a);
            plan.assign((size_t)tasks, {});
            bool any = false;
            for (int t = 0; t < tasks; t++) for (auto &a : pls[(size_t)q][(size_t)t]) if (op_keep()) { plan[(size_t)t].push_back(a); any = true; }
            if (any) {
                n.a->pool_prepare();
                for (auto &a : betw[(size_t)q]) if (op_keep()) act(mine, a);
                for (int t = 0; t < tasks; t++) n.a->pool_add((void *)task, (void *)(s64)t, nullptr, nullptr);
                n.a->drop(n.a->pool_run());
            }
            if (gcs[(size_t)q]) n.a->hgc();
        }
        for (auto &v : slots) for (auto &b : v) { verify(b, b.n, "at the end"); n.a->hfree(b.p); }
        for (auto &b : shared) { verify(b, b.n, "at the end"); n.a->hfree(b.p); }
        for (auto &b : mine) { verify(b, b.n, "at the end"); n.a->hfree(b.p); }
        if (live_objs(0) != live0) violation("live_count", "%lld allocations outstanding after everything was freed", (long long)(live_objs(0) - live0));
        n.a->hgc();
        // conservation: blocks freed anywhere are allocatable again: a large request pattern is served without new mappings growing per cycle
        u64 hi = 0;
        for (int c = 0; c < 6; c++) {
            std::vector<Blk> v;
            for (int i = 0; i < 40; i++) { Blk b = {n.a->halloc(1 << (5 + i % 14)), 1 << (5 + i % 14), ++pat_next}; if (!b.p) violation("alloc_null", "allocation failed after everything was freed"); fill(b); v.push_back(b); }
            for (auto &b : v) { verify(b, b.n, "reuse"); n.a->hfree(b.p); }
            n.a->hgc();
            if (c == 1) hi = g_live_map_bytes;
            if (c > 1 && g_live_map_bytes > hi) violation("memory_growth", "mapped memory grows from cycle to cycle of an alloc/free loop: %llu then %llu bytes", (unsigned long long)hi, (unsigned long long)g_live_map_bytes);
        }
        if (w.chance(0.2)) n.a->destroy();
    });
}
// ================================================================== C01
SCENARIO(C01, "parallel evaluation gives the sequential result") {
    sim_draw_policy(true);
    int workers = (int)w.range(2, 8);
    s64 n = w.chance(0.35) ? w.range(16384, 60000) : w.pick(std::vector<s64>{16383, 16384, 16385, 17000, 20480, 24577, 32768, 33000, 200});
    Gen g(w, n);
    auto data = g.data();
    int nq = (int)w.range(2, 7);
    std::vector<std::string> q;
    for (int i = 0; i < nq; i++) q.push_back(w.chance(0.08) ? g.bad_query() : g.query());
    describe("workers=%d n=%lld:", workers, (long long)n);
    for (auto &s : q) describe(" %.60s;", s.c_str());
    std::vector<u64> href(q.size());
    std::vector<std::string> sref(q.size());
    std::vector<bool> keep;
    for (size_t i = 0; i < q.size(); i++) keep.push_back(op_keep());
    on_node(1, [&]() {
        Node s(1);
        s.create({"-c", "1"});
        for (auto &d : data) s.must(d);
        for (size_t i = 0; i < q.size(); i++) if (keep[i]) sref[i] = s.eval(q[i], &href[i], 1 << 28);
    });
    on_node(0, [&]() {
        Node p(0);
        p.create({"-c", std::to_string(workers)});
        for (auto &d : data) p.must(d);
        for (size_t i = 0; i < q.size(); i++) {
            if (!keep[i]) continue;
            u64 h;
            std::string r = p.eval(q[i], &h, 1 << 28);
            if (h != href[i] && !same_value(r, sref[i])) violation("parallel_result", "%s on %lld rows with %d executors gives %.200s; with one executor it gives %.200s", q[i].c_str(), (long long)n, workers, r.c_str(), sref[i].c_str());
            if (r == "ERR") probe(0); else probe(1);
        }
        if (w.chance(0.1)) p.a->destroy();
    });
}
// ================================================================== C05
SCENARIO(C05, "reference counts exact under parallel sharing: no use after free, no double free, no leak") {
    sim_draw_policy(true);
    int workers = (int)w.range(1, 6);
    s64 n = w.pick(std::vector<s64>{200, 16384, 17001, 20480, 24577});
    Gen g(w, n);
    auto data = g.data();
    int nq = (int)w.range(1, 5);
    std::vector<std::string> q;
    for (int i = 0; i < nq; i++) q.push_back(w.chance(0.35) ? g.bad_query() : g.query());
    describe("workers=%d n=%lld:", workers, (long long)n);
    for (auto &s : q) describe(" %.60s;", s.c_str());
    std::vector<bool> keep;
    for (size_t i = 0; i < q.size(); i++) keep.push_back(op_keep());
    on_node(0, [&]() {
        Node p(0);
        p.create({"-c", std::to_string(workers)});
        for (auto &d : data) p.must(d);
        static const char *names[] = {"a", "b", "f", "i", "s", "d", "ts", "c", "t", "sm", "k", "h", "u", "nn", "fn", "e", "l", "bm", "qt", "add3", "rec", "sel"};
        auto rcs = [&]() { std::string r; for (auto nm : names) { r += nm; r += ":" + p.eval(std::string("(rc ") + nm + ")") + " "; } return r; };
        for (size_t i = 0; i < q.size(); i++) {
            if (!keep[i]) continue;
            p.eval(q[i]);              // first evaluation may intern names and warm caches
            std::string r0 = rcs();
            s64 l0 = live_objs(0);
            u64 h0, h1;
            u64 mark = leak_mark();
            p.eval(q[i], &h0);
            std::string r1 = rcs();     // also replaces the error trace the runtime keeps of the last failure
            s64 l1 = live_objs(0);
            if (l1 != l0) leak_report(mark);
            if (l1 != l0) violation("leak", "each evaluation of %s (n=%lld, %d executors) leaves %lld allocations behind", q[i].c_str(), (long long)n, workers, (long long)(l1 - l0));
            if (r1 != r0) violation("refcount", "evaluating %s changed reference counts of globals from %s to %s", q[i].c_str(), r0.c_str(), r1.c_str());
            // a result outlives later evaluations unchanged
            void *o = p.a->eval(q[i].c_str());
            std::string c1 = p.canon(o, &h1);
            p.eval(q[(i + 1) % q.size()]);
            u64 h2;
            std::string c2 = p.canon(o, &h2);
            if (h1 != h2 || h1 != h0) violation("value_changed", "the value of %s changed from %.150s to %.150s while it was held", q[i].c_str(), c1.c_str(), c2.c_str());
            p.a->drop(o);
        }
        if (w.chance(0.1)) p.a->destroy();
    });
}
