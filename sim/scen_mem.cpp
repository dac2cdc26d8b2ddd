// Memory that is refused: values in swap files, and errors when there are none either.
#include "ipcx.h"
namespace mem {
struct Op { int kind, v; std::string src; bool refuse, files, keep; };
static const char *dirs[] = {"swap", "swap/", "", "nowhere", "a-long-name-for-a-directory/with-another-one/below-it/abcdefgh"};
static const int NV = 5;
// a value of about n items
static std::string value(Rng &w, s64 n) {
    std::string N = std::to_string(n);
    int u = (int)w.below(90);
    switch (w.below(9)) {
        case 0: return "(til " + N + ")";
        case 1: return strf("(+ %d (til %s))", u, N.c_str());
        case 2: return strf("(* 0.5 (til %s))", N.c_str());
        case 3: return strf("(take (at [a b cc d%d] (%% (til 40) 4)) %s)", u, N.c_str());
        case 4: return strf("(as 'I32 (%% (til %s) %d))", N.c_str(), u + 5);
        case 5: return strf("(take \"abc%d\" %lld)", u, (long long)n * 8);
        case 6: return strf("(take [1 2 0Nl %d] %s)", u, N.c_str());
        case 7: return strf("(table [k x s] (list (%% (til %lld) 7) (til %lld) (take [p q r] %lld)))", (long long)n / 3, (long long)n / 3, (long long)n / 3);
        default: return strf("(list (til %lld) \"t\" %d (* 2.0 (til %lld)))", (long long)n / 2, u, (long long)n / 2);
    }
}
// what to do with a vector x of numbers (errors are the same everywhere)
static std::string use(Rng &w, const std::string &x, const std::string &y) {
    switch (w.below(17)) {
        case 0: return "(+ 1 " + x + ")";
        case 1: return "(concat " + x + " " + x + ")";
        case 2: return "(reverse " + x + ")";
        case 3: return "(where (> " + x + " 5))";
        case 4: return "(as 'F64 " + x + ")";
        case 5: return strf("(take %s %lld)", x.c_str(), (long long)w.range(1, 5));
        case 6: return "(+ " + x + " " + y + ")";
        case 7: return "(distinct (% " + x + " 1000))";
        case 8: return "(at " + x + " (til 1000))";
        case 9: return "(select {from: " + x + " a: (sum x) by: k})";
        case 10: return "(select {from: " + x + " where: (> x 1000)})";
        case 11: return "(map (fn [a] (+ a 1)) (list " + x + " " + y + "))";
        case 12: return "(pmap (fn [a] (* 2 a)) (list " + x + " " + y + " " + x + "))";
        case 13: return "(alter " + x + strf(" + %d %d)", (int)w.below(10), (int)w.below(90));
        case 14: return "(update {x: (+ x 1) from: " + x + " where: (> x 1000)})";
        case 15: return "(do (alter '" + x + " + 1) " + x + ")";
        default: return "(list " + x + " " + y + ")";
    }
}
}
SCENARIO(C20, "values in swap files") {
    using namespace mem;
    policy_io();
    bool hard = w.chance(0.4), crash = w.chance(0.2), soft = w.chance(0.3);
    int dir = (int)w.below(5), workers = w.pick(std::vector<int>{1, 1, 2, 4});
    double p = w.pick(std::vector<double>{1, 1, 0.5}), pf = w.pick(std::vector<double>{0.2, 0.6, 1});
    if (dir == 3 && !hard) dir = 0;
    u64 small = hard ? 32 << 20 : w.pick(std::vector<u64>{1 << 20, 32 << 20});   // the size from which memory is refused
    int m = (int)w.range(3, 10);
    std::vector<Op> ops;
    auto len = [&]() { return hard || w.chance(0.3) ? w.range(2100000, 2300000) : w.chance(0.2) ? w.range(10, 5000) : w.range(100000, 700000); };
    for (int i = 0; i < m; i++) {
        Op o;
        o.kind = w.pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2, 3, 4});
        o.v = (int)w.below(NV);
        std::string x = strf("v%d", (int)w.below(NV)), y = strf("v%d", (int)w.below(NV));
        o.src = o.kind == 0 ? value(w, len()) : o.kind == 4 ? strf("(sum (%% v%d 9))", o.v) : use(w, x, y);
        o.refuse = w.chance(0.8);
        o.files = hard && w.chance(0.5);
        o.keep = op_keep();
        ops.push_back(o);
    }
    describe("%d operations, workers=%d, swap directory '%s', refused from %llu MB on%s%s", m, workers, dirs[dir], (unsigned long long)small >> 20, hard ? ", files fail too" : "", crash ? ", crash" : "");
    g_env.clear();
    if (dir != 2) g_env["HEAP_SWAP"] = dirs[dir];
    if (dir != 3 && dir != 2) fs_mkdirs(dirs[dir]);
    size_t before = fs_list("/").size();
    bool refuse = false;
    Rng fr(w.next());
    mem_fail_policy = [&](u64 l) { return refuse && cur_node() == 0 && l >= small && (p >= 1 || fr.chance(p)); };
    auto files_left = [&](const char *when) {
        auto l = fs_list("/");
        for (size_t i = 0; i < l.size();) if (fs_read(l[i]).empty()) l.erase(l.begin() + (long)i); else i++;   // a file that has just been created and has no contents yet
        if (l.size() != before) violation("file_left", "%s there are files left behind: %s", when, l.empty() ? "" : l.back().c_str());
    };
    auto drop_all = [&](Node &n) { for (int v = 0; v < NV; v++) n.must(strf("(set v%d 0)", v)); n.must("(gc)"); };
    std::vector<std::string> got(ops.size());
    std::vector<u64> gh(ops.size());
    s64 live = 0;
    bool any_failed = false, done = false;
    auto run = [&](Node &n, bool first) {
        n.create({"-c", std::to_string(workers)});
        for (int v = 0; v < NV; v++) n.must(strf("(set v%d (til %d))", v, 10 + v));
        int fds = node_fd_count(n.k);
        for (size_t i = 0; i < ops.size(); i++) {
            Op &o = ops[i];
            if (!o.keep || (!first && got[i] == "ERR" && (o.kind != 4 || o.files))) continue;
            if (o.kind == 2) { n.must(strf("(set v%d 0)", o.v)); continue; }
            if (o.kind == 3) { n.must("(gc)"); continue; }
            std::string src = o.kind == 4 ? o.src : strf("(do (set v%d %s) (count v%d))", o.v, o.src.c_str(), o.v);
            echo(src);
            g_ff = FsFaults();
            if (first) {
                if (soft) g_ff.p_eintr = 0.2;
                if (o.files) { g_ff.p_open = pf / 2; g_ff.p_mmap = pf / 2; g_ff.p_enospc = pf / 2; g_ff.p_lseek = pf / 2; }
                if (crash) g_ff.p_crash = 0.1;
                refuse = o.refuse;
                g_ff.on = true;
            }
            std::string r = n.eval(src);
            refuse = g_ff.on = false;
            if (r != "ERR" && o.kind != 4) r += " " + n.eval(strf("v%d", o.v), first ? &gh[i] : nullptr, 60);
            u64 h = 0;
            if (!first && r != "ERR" && o.kind != 4) n.eval(strf("v%d", o.v), &h, 60);
            if (first) { got[i] = r; if (r == "ERR") any_failed = true; continue; }
            probe(0);
            if (r != got[i] || (o.kind != 4 && r != "ERR" && h != gh[i])) violation("differs", "%s gives %.200s when memory is refused, %.200s when it is not", src.c_str(), got[i].c_str(), r.c_str());
        }
        if (first && any_failed) {   // there is room again
            probe(1);
            for (int v = 0; v < 2; v++) { std::string x = n.eval(strf("(do (set v%d (til 2200000)) (sum v%d))", v, v)); if (x != n.eval(strf("%lld", 2200000ll * 2199999 / 2))) violation("no_recovery", "after memory and disk have room again, (sum (til 2200000)) is %s", x.c_str()); }
        }
        drop_all(n);
        if (first) {
            if (node_fd_count(n.k) != fds) violation("descriptors", "%d descriptors are open when all values are gone, %d before:%s", node_fd_count(n.k), fds, node_fd_desc(n.k).c_str());
            files_left("when all values are gone");
            live = g_heap[0].live;
        } else if (!any_failed && g_heap[1].live != live) violation("memory_left", "%lld allocations are left when memory was refused, %lld when it was not", (long long)live, (long long)g_heap[1].live);
        n.a->destroy();
        if (first) done = true;
    };
    // without any memory even for the smallest objects the process ends, orderly
    if (hard) S.on_exit = [&](int node, int code) { if (node != 0 || !refuse || !g_ff.p_mmap) return false; probe(3); return code == 1; };
    on_node(0, [&]() { Node n(0); run(n, true); });
    refuse = g_ff.on = false;
    if (!done) { probe(2); files_left("after the process has died"); return; }
    files_left("after the end of the process");
    on_node(1, [&]() { Node n(1); run(n, false); });
}
// ================================================================== C21
SCENARIO(C21, "random values") {
    policy_io();
    sim_draw_policy(false);
    int nodes = (int)w.range(1, 3), m = (int)w.range(2, 8);
    struct Op { int kind, n, k; s64 max; bool keep; s64 pause; };
    std::vector<std::vector<Op>> ops((size_t)nodes);
    std::vector<std::string> wk;
    for (auto &v : ops) {
        wk.push_back(std::to_string(w.range(1, 8)));
        for (int i = 0; i < m; i++) {
            Op o;
            o.kind = (int)w.below(8);
            o.n = w.chance(0.15) ? (int)w.range(16000, 40000) : (int)w.range(4, 60);
            o.k = (int)w.range(2, 30);
            o.max = w.pick(std::vector<s64>{1, 2, 7, 1000, 1ll << 40, 1ll << 62, 9223372036854775807ll});
            o.pause = w.chance(0.3) ? w.range(1, 3000) * MS : 0;
            o.keep = op_keep();
            v.push_back(o);
        }
    }
    describe("%d processes, workers %s", nodes, wk[0].c_str());
    std::set<std::string> guids, seqs;
    std::vector<int> thr;
    for (int k = 0; k < nodes; k++)
        thr.push_back(spawn_node(k, [&, k]() {
            Node n(k);
            n.create({"-c", wk[(size_t)k]});
            // the items of a vector or of a list of vectors
            std::function<void(void *, const std::string &, s64, int)> items = [&](void *o, const std::string &src, s64 max, int kind) {
                if (n.is_err(o)) violation("failed", "%s fails", src.c_str());
                s64 l = n.a->len(o);
                if (n.a->type(o) == T_LIST) { for (s64 i = 0; i < l; i++) items(n.a->list_at(o, i), src, max, kind); return; }
                const unsigned char *p = n.a->raw(o);
                if (kind == 0) {
                    for (s64 i = 0; i < l; i++) {
                        std::string g((const char *)p + 16 * i, 16);
                        probe(0);
                        if (!guids.insert(g).second) violation("repeated", "%s gives a GUID that was there before", src.c_str());
                    }
                    return;
                }
                for (s64 i = 0; i < l; i++) { s64 x; memcpy(&x, p + 8 * i, 8); probe(1); if (x < 0 || x >= max) violation("range", "%s gives %lld", src.c_str(), (long long)x); }
                if (max >= 1ll << 40 && l >= 4) for (s64 i = 0; i + 4 <= l; i += 4) if (!seqs.insert(std::string((const char *)p + 8 * i, 32)).second) violation("repeated", "%s gives the same numbers that were drawn before", src.c_str());
            };
            for (auto &o : ops[(size_t)k]) {
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                std::string src;
                switch (o.kind) {
                    case 0: src = strf("(guid %d)", o.n); break;
                    case 1: case 2: src = strf("(pmap (fn [x] (guid %d)) (til %d))", std::min(o.n, 200), o.k); break;
                    case 3: src = strf("(map (fn [x] (guid %d)) (til %d))", std::min(o.n, 200), o.k); break;
                    case 4: case 5: src = strf("(rand %d %lld)", o.n, (long long)o.max); break;
                    case 6: src = strf("(pmap (fn [x] (rand %d %lld)) (til %d))", std::min(o.n, 200), (long long)o.max, o.k); break;
                    default: src = strf("(list (rand %d %lld) (rand %d %lld))", o.n, (long long)o.max, o.n, (long long)o.max); break;
                }
                echo(src);
                void *r = n.a->eval(src.c_str());
                items(r, src, o.max, o.kind <= 3 ? 0 : 1);
                n.a->drop(r);
            }
            n.a->destroy();
        }));
    for (int t : thr) if (!wait_thr_for(t, 100 * SEC)) violation("hang", "a process does not come to an end");
}
