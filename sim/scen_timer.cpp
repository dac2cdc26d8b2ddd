// Timers of a server: when they fire, how often, and what they leave to others.
#include "ipcx.h"
#include <cmath>
#include <netinet/in.h>
#include <sys/socket.h>
namespace c18 {
struct Tm { s64 tic, num; int kind, arg, m; };            // what a label stands for (num 0: without end)
struct Op { int kind, label; s64 pause, jump; bool keep; int who; };
struct Ev { char k; int label; s64 v, at; int round; };
struct One { s64 a = -1, b = -1, id = -1; std::vector<s64> f, t; s64 cancelled = -1; bool after = false; };
}
SCENARIO(C18, "timers fire when they are due, as often as asked for, until they are cancelled, and leave time for everything else") {
    using namespace c18;
    policy_io();
    benign_net(w);
    bool far = w.chance(0.12);                            // days instead of milliseconds
    const s64 UNIT = far ? 3600 * 1000 : 1;               // milliseconds
    bool slow = !far && w.chance(0.3), jumps = w.chance(0.5), sigs = w.chance(0.5);
    int nc = (int)w.range(1, 3), rounds = !far && !slow && w.chance(0.3) ? 4 : 1, fast = 2;
    int nl = w.chance(0.25) ? (int)w.range(17, 40) : (int)w.range(1, 12);
    std::vector<Tm> tm;
    for (int i = 0; i < nl; i++) {
        Tm t;
        t.num = w.chance(0.45) ? 0 : w.chance(0.1) ? 1 : w.range(1, 9);
        switch (w.below(4)) {
            case 0: t.tic = w.range(1, 6); break;
            case 1: t.tic = w.range(5, 60); break;
            case 2: t.tic = w.range(50, 500); break;
            default: t.tic = w.range(300, 2500); break;
        }
        if (t.num == 0 && t.tic < 10 && fast-- <= 0) t.tic += 40;
        if (t.num && w.chance(0.08)) t.tic = 0;
        t.tic *= UNIT;
        t.kind = w.chance(0.4) ? 0 : (int)w.range(1, 6);
        if (t.kind == 5 && !slow) t.kind = 6;
        t.arg = (int)w.below((u64)nl);
        t.m = (int)w.range(1, 4);
        tm.push_back(t);
    }
    std::vector<Op> plan;
    int m = (int)w.range(2, 14) + nl;
    for (int i = 0; i < m; i++) {
        Op o;
        o.kind = i < nl && w.chance(0.7) ? 0 : (int)w.pick(std::vector<int>{0, 1, 1, 1, 2, 3, 4, 5});
        o.label = i < nl ? i : (int)w.below((u64)nl);
        o.pause = w.chance(0.5) ? w.range(0, 300) * UNIT * MS : w.chance(0.2) ? w.range(100, 1500) * UNIT * MS : 0;
        o.jump = jumps && w.chance(0.3) ? w.pick(std::vector<s64>{-86400, -3600, -2, 2, 3600, 86400}) * SEC : 0;
        o.who = (int)w.below((u64)nc);
        plan.push_back(o);
    }
    for (auto &o : plan) o.keep = op_keep();
    describe(" timers=%d clients=%d rounds=%d%s%s%s", nl, nc, rounds, far ? " far" : "", slow ? " slow" : "", jumps ? " jumps" : "");
    int nslow = 0;
    for (auto &t : tm) nslow += t.kind == 5;
    // what is sent to the server to make a timer
    std::function<std::string(int)> make = [&](int k) -> std::string {
        Tm &t = tm[(size_t)k];
        std::string b;
        switch (t.kind) {
            case 1: b = "(raise \"cb\")"; break;
            case 2: b = strf("(if (== c%d %d) (do (timer id%d) (println \"C %d %%\" id%d)) 0)", k, t.m, k, k, k); break;
            case 3: b = strf("(if (== c%d %d) (do (timer id%d) (println \"C %d %%\" id%d)) 0)", k, t.m, t.arg, t.arg, t.arg); break;
            case 4: b = strf("(if (== c%d 1) (mk%d 0) 0)", k, t.arg); break;
            case 5: b = "(try (hopen \"127.0.0.1:6001\" 3) (fn [e] 0))"; break;
            case 6: b = "(sum (til 500))"; break;
            default: b = "0";
        }
        return strf("(set mk%d (fn [q] (if (== id%d -1) (do (println \"A %d 0\") (set c%d 0) (set id%d (timer %lld %lld (fn [t] (do (println \"F %d %%\" t) (set c%d (+ c%d 1)) %s)))) (println \"B %d %%\" id%d)) 0)))",
                    k, k, k, k, k, (long long)t.tic, (long long)t.num, k, k, k, b.c_str(), k, k);
    };
    std::vector<Ev> log;
    std::string part;
    int round = 0;
    g_out_hook = [&](int node, const char *p, size_t n) {
        if (node != 0) return;
        for (size_t i = 0; i < n; i++) {
            if (p[i] != '\n') { part += p[i]; continue; }
            Ev e;
            long long v;
            if (sscanf(part.c_str(), "%c %d %lld", &e.k, &e.label, &v) == 3 && strchr("ABCF", e.k)) { e.v = v; e.at = S.now; e.round = round; log.push_back(e); }
            part.clear();
        }
    };
    std::vector<std::string> defs;
    for (int k = 0; k < nl; k++) { defs.push_back(strf("(set id%d -1)", k)); defs.push_back(strf("(set c%d 0)", k)); }
    for (int k = 0; k < nl; k++) defs.push_back(make(k));
    if (slow) {       // a peer that accepts connections and never says anything
        sim_spawn(41, [&]() {
            int ls = simc_socket(AF_INET, SOCK_STREAM, 0);
            struct sockaddr_in sa;
            memset(&sa, 0, sizeof sa);
            sa.sin_family = AF_INET;
            sa.sin_port = htons(6001);
            simc_bind(ls, &sa, sizeof sa);
            simc_listen(ls, 5);
            for (;;) { int fd = simc_accept(ls, nullptr, nullptr); if (fd >= 0) { sim_sleep(MS / 2); simc_close(fd); } }
        });
        if (sim_wait([]() { return net_listening(6001); }, S.now + SEC, "silent peer")) violation("setup_failed", "silent peer");
    }
    Server srv;
    start_server(srv, defs);
    const s64 LAT = 400 * MS, ANSWER = 5 * SEC;
    bool stop = false;
    int noise = sim_spawn(45, [&]() { while (!stop) { sim_sleep((far ? 5000000 : 7) * MS); if (sigs) sim_signal(0, 0); } });
    bool alljump = false;
    s64 live[8];
    g_nf.on = true;
    for (round = 0; round < rounds; round++) {
        std::vector<int> thr;
        for (int c = 0; c < nc; c++)
            thr.push_back(sim_spawn(46 + c, [&, c]() {
                Raw r;
                auto ask = [&](const std::string &q) {
                    std::string p;
                    s64 t0 = S.now;
                    if (r.fd < 0 && !r.open(5101)) violation("unanswered", "the server does not take a connection while its timers run");
                    if (!r.ask(q, &p, ANSWER)) violation("unanswered", "a request has no answer after %lld ms while timers run", (long long)(S.now - t0) / MS);
                    std::vector<s64> v;
                    if (!Raw::ints(p, &v) || v.size() != 1 || v[0] != 7) violation("answer", "the answer to %.100s is not 7", q.c_str());
                    probe(0);
                };
                for (auto &o : plan) {
                    if (!o.keep || o.who != c) continue;
                    if (o.pause) sim_sleep(o.pause);
                    if (o.jump) { fault(FK_CLOCK_JUMP); S.real_off += o.jump; alljump = true; }
                    switch (o.kind) {
                        case 0: ask(strf("(do (mk%d 0) 7)", o.label)); break;
                        case 1: ask(strf("(do (timer id%d) (println \"C %d %%\" id%d) 7)", o.label, o.label, o.label)); break;
                        case 2: ask("(do (timer -1) (timer 123456789) (timer 0Nl) 7)"); break;
                        case 3: ask("(do (sum (til 2000)) 7)"); break;
                        case 4: ask(strf("(do (try (timer 5 1 3) (fn [e] 0)) (try (timer 'a) (fn [e] 0)) (try (timer %lld 0 (fn [] 1)) (fn [e] 0)) 7)", (long long)o.label)); break;
                        case 5: r.close(); break;
                    }
                }
                r.close();
            }));
        for (int t : thr) if (!wait_thr_for(t, (far ? 1000 * 86400 : 900) * SEC)) violation("unanswered", "a client of a server with timers does not end");
        sim_sleep(w.below(3) == 0 ? 100 * MS : w.range(500, 3000) * UNIT * MS);
        g_nf.on = false;
        if (sim_wait([&]() { return false; }, S.now + LAT, "settle")) {}
        s64 end = S.now;
        // ------------------------------ what the log has to say
        std::vector<One> all((size_t)nl);
        std::map<s64, int> ids;
        for (auto &e : log) {
            if (e.k == 'B') { if (ids.count(e.v)) violation("id", "timer %d is given id %lld which another one was given before", e.label, (long long)e.v); ids[e.v] = e.label; }
            if (e.round != round) continue;
            One &o = all[(size_t)e.label];
            Tm &t = tm[(size_t)e.label];
            switch (e.k) {
                case 'A': o.a = e.at; break;
                case 'B': o.b = e.at; o.id = e.v; break;
                case 'C': if (e.v >= 0 && e.v == o.id && o.cancelled < 0) o.cancelled = e.at; break;
                case 'F': {
                    if (o.b < 0) violation("fired", "timer %d fires before it was made", e.label);
                    if (o.cancelled >= 0) violation("fired_cancelled", "timer %d (every %lld ms) fires %lld ms after it was cancelled", e.label, (long long)t.tic, (long long)(e.at - o.cancelled) / MS);
                    o.f.push_back(e.at);
                    s64 i = (s64)o.f.size();
                    if (t.num && i > t.num) violation("fired_often", "timer %d was to fire %lld times and fires once more", e.label, (long long)t.num);
                    if (e.at < o.a + i * t.tic * MS - MS) violation("early", "timer %d (every %lld ms) fires the %lldth time %lld ms after it was made", e.label, (long long)t.tic, (long long)i, (long long)(e.at - o.a) / MS);
                    if (!nslow && e.at > o.b + i * t.tic * MS + LAT) violation("late", "timer %d (every %lld ms) fires the %lldth time %lld ms after it was made", e.label, (long long)t.tic, (long long)i, (long long)(e.at - o.b) / MS);
                    if (!alljump && (e.v > (e.at + S.real_off) / MS || e.v < (e.at + S.real_off) / MS - 50)) violation("argument", "timer %d fires at %lld ms and is given %lld", e.label, (long long)((e.at + S.real_off) / MS), (long long)e.v);
                    probe(1);
                }
            }
        }
        for (int k = 0; k < nl; k++) {
            One &o = all[(size_t)k];
            Tm &t = tm[(size_t)k];
            if (o.b < 0 || o.cancelled >= 0) { if (o.b >= 0) probe(2); continue; }
            s64 period = std::max<s64>(t.tic * MS, nslow ? nslow * 5 * MS + 5 * MS : 0);
            s64 due = period ? (end - o.b - LAT) / period : t.num;
            if (t.num && due > t.num) due = t.num;
            if (due > 0 && nslow) due = std::min<s64>(due, t.num ? t.num : due);
            if ((s64)o.f.size() < due) violation("missing", "timer %d (every %lld ms, %lld times) has fired %zu times %lld ms after it was made; at least %lld were due", k, (long long)t.tic, (long long)t.num, o.f.size(), (long long)(end - o.b) / MS, (long long)due);
            if (due > 0) probe(3);
            if (t.num && (s64)o.f.size() == t.num) probe(4);
        }
        // ------------------------------ all are cancelled; nothing fires any more
        int t = sim_spawn(50, [&]() {
            Raw r;
            std::string p;
            if (!r.open(5101)) violation("server_gone", "the server does not answer at the end");
            for (int k = 0; k < nl; k++) if (!r.ask(strf("(do (timer id%d) (set id%d -1) 7)", k, k), &p)) violation("server_gone", "the server does not answer at the end");
            r.close();
        });
        if (!wait_thr_for(t, 300 * SEC)) violation("server_gone", "the server does not answer at the end");
        size_t before = log.size();
        sim_sleep(far ? 400 * 3600 * SEC : 3 * SEC);
        for (size_t i = before; i < log.size(); i++) if (log[i].k == 'F') violation("fired_cancelled", "timer %d fires after all have been cancelled", log[i].label);
        if (srv.done) violation("server_gone", "the server ended");
        live[round] = g_heap[0].live;
        if (round == 3 && live[3] > live[2] && live[2] > live[1] && live[1] > live[0]) violation("memory_left", "repeating the same timers leaves %lld more allocations", (long long)(live[3] - live[2]));
        g_nf.on = true;
    }
    stop = true;
    wait_thr(noise);
    g_out_hook = nullptr;
}
