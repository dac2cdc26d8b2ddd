// The end of a server: told to from anywhere, or by a signal at any moment.
#include "ipcx.h"
#include <csignal>
#include <netinet/in.h>
#include <sys/socket.h>
namespace c19 {
struct Op { int kind; s64 pause; int n; std::string text; bool keep; };
}
SCENARIO(C19, "a server that is told to end ends, says what it was told to say, and leaves nothing behind") {
    using namespace c19;
    policy_io();
    benign_net(w);
    int how = (int)w.below(11), code = (int)w.range(0, 40), workers = w.chance(0.3) ? 2 : 1;
    int nc = (int)w.range(0, 3), nraw = (int)w.range(0, 2);
    s64 when = w.chance(0.2) ? 0 : w.range(0, 40000) * 1000;      // after the server has started to serve
    int hooks = (int)w.below(4), njr = w.chance(0.5) ? 1 : 0, ntm = w.chance(0.5) ? (int)w.range(1, 20) : 0;
    if (hooks == 2 && (how < 2 || how == 9 || how == 10)) hooks = 1;   // no connection could tell it
    s64 gap = w.chance(0.5) ? 10 : 1000;
    bool successor = w.chance(0.3);
    describe(" how=%d code=%d clients=%d raw=%d when=%lld us hooks=%d", how, code, nc, nraw, (long long)when / 1000, hooks);
    std::vector<std::vector<Op>> plan((size_t)(nc + nraw));
    for (auto &v : plan) for (int i = 0, m = (int)w.range(1, 10); i < m; i++) v.push_back({(int)w.below(12), w.chance(0.5) ? w.range(1, 8000) * 1000 : 0, (int)w.range(1, 4000), payload_expr(w, 1), true});
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    int cap = w.chance(0.3) ? (int)w.range(16, 4000) : 0;
    std::vector<std::string> defs = {
        "(set bulk (til 20000))", "(set n 0)", "(set np 0)", strf("(set bye (fn [x] (do (println \"BYE\") (exit %d))))", code),
        "(set back (fn [s] (write .z.w s)))", "(set kept 0)",
    };
    if (w.chance(0.4)) for (auto d : {"(set \"v.dat\" (til 5000))", "(set mv (get \"v.dat\"))", "(set ml (list mv (+ mv 1) 'x))"}) defs.push_back(d);
    if (w.chance(0.3)) for (auto d : {"(set-splayed \"sp/\" (table [k s v] (list (til 300) (take [aa bb cc] 300) (take (list 1 \"x\" 2.5) 300))) \"sym\")", "(set sp (get-splayed \"sp/\" \"sym\"))"}) defs.push_back(d);
    if (w.chance(0.3)) for (auto d : {"(set f (fn [x] (let y (fn [z] (+ z 1))) (y x)))", "(set g (f 3))", "(set d (dict [a b] (list f (til 5))))", "(try (f 'a) (fn [e] 0))"}) defs.push_back(d);
    bool other = w.chance(0.2);   // the server is a client of another one
    if (other) defs.insert(defs.begin(), "(set self (hopen \"127.0.0.1:6002\" 2000))");

    static const char *pos[] = {"0", "(write (neg x) \"1\")", "(hclose x)", "(raise \"po\")"};
    static const char *pcs[] = {"0", "(write (neg x) \"1\")", "(hclose x)", "(raise \"pc\")"};
    defs.push_back(strf("(set .z.po (fn [x] (do (println \"PO %%\" x) (set np (+ np 1)) %s)))", how == 4 ? strf("(if (>= np %d) (bye 0) 0)", (int)w.range(1, 3)).c_str() : pos[hooks]));
    defs.push_back(strf("(set .z.pc (fn [x] (do (println \"PC %%\" x) (set n (+ n 1)) %s)))", how == 3 ? "(bye 0)" : pcs[hooks]));
    if (njr) { defs.push_back("(set j (hopen \"jrn\"))"); defs.push_back("(set put (fn [x] (write j x)))"); } else defs.push_back("(set put (fn [x] 0))");
    for (int i = 0; i < ntm; i++) defs.push_back(strf("(timer %lld %lld (fn [t] (set n (+ n 1))))", (long long)w.range(0, 40) + 1, (long long)w.below(5)));
    if (how == 2) defs.push_back(strf("(timer %lld %d (fn [t] (bye 0)))", (long long)when / MS + 50, (int)w.below(3)));
    bool told = false, gone = false;
    std::string part;
    std::map<s64, int> open_conn;     // opened more often than closed, as the callbacks tell
    s64 told_at = 0;
    g_out_hook = [&](int node, const char *p, size_t n) { 
        if (node != 0) return;
        for (size_t i = 0; i < n; i++) {
            if (p[i] != '\n') { part += p[i]; continue; }
            long long h;
            if (part == "BYE" && !told) { told = true; told_at = S.now; }
            if (sscanf(part.c_str(), "PO %lld", &h) == 1) open_conn[h]++;
            if (sscanf(part.c_str(), "PC %lld", &h) == 1) open_conn[h]--;
            part.clear();
        }
    };
    if (other) {
        sim_spawn(44, [&]() {
            int ls = simc_socket(AF_INET, SOCK_STREAM, 0);
            struct sockaddr_in sa;
            memset(&sa, 0, sizeof sa);
            sa.sin_family = AF_INET;
            sa.sin_port = htons(6002);
            simc_bind(ls, &sa, sizeof sa);
            simc_listen(ls, 5);
            int fd = simc_accept(ls, nullptr, nullptr);
            if (fd < 0) return;
            bool eof = false;
            hp_recv(fd, 2, SEC, &eof);
            hp_send(fd, std::string(1, 1));
            while (!eof) hp_recv(fd, 1, 100 * MS, &eof);
            simc_close(fd);
        });
        if (sim_wait([]() { return net_listening(6002); }, S.now + SEC, "other server")) violation("setup_failed", "other server");
    }
    Server srv;
    srv.args = {"-c", std::to_string(workers)};
    start_server(srv, defs, nullptr, [&](Node &n) { n.a->destroy(); gone = true; });
    if (cap) g_nf.cap_lo = g_nf.cap_hi = (u64)cap;
    g_nf.on = true;
    std::vector<int> thr;
    for (int c = 0; c < nc; c++)
        thr.push_back(spawn_node(2 + c, [&, c]() {
            Node n(2 + c);
            n.create({"-c", "1"});
            n.must("(set bk (fn [x] (+ x 1)))");
            if (conn_open(n, 5101, 1).empty()) return;
            for (auto &o : plan[(size_t)c]) {
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                s64 t0 = S.now;
                switch (o.kind) {
                    case 0: n.eval(strf("(write h (list 'put %d))", o.n)); break;
                    case 1: n.eval(strf("(write (neg h) (list 'put (til %d)))", o.n)); break;
                    case 2: n.eval("(write h \"bulk\")"); break;
                    case 3: n.eval("(write h \"(back \\\"(bk 3)\\\")\")"); break;
                    case 4: n.eval("(write (neg h) \"(write (neg .z.w) bulk)\")"); break;
                    case 5: n.eval("(hclose h)"); conn_open(n, 5101, 1); break;
                    case 6: n.eval("(write h \"(sum (til 3000))\")"); break;
                    case 7: n.eval("(write (neg h) (til 20000))"); break;
                    case 8: n.eval("(write h " + esc(o.text) + ")"); break;
                    case 9: n.eval("(write h " + esc("(set kept (list kept " + o.text + "))") + ")"); break;
                    case 10: n.eval("(write h " + esc(strf("(do (set kept %s) (let q kept) (+ q 'a%d))", o.text.c_str(), o.n % 5)) + ")"); break;
                    case 11: n.eval("(write h " + esc(strf("(pmap (fn [x] (if (> x %d) (raise \"w\") (list x kept))) (til 8))", o.n % 12)) + ")"); break;
                }
                if (S.now - t0 > 60 * SEC) violation("client_stuck", "a client waits %lld s for a server that has been told to end", (long long)(S.now - t0) / SEC);
            }
        }));
    for (int c = 0; c < nraw; c++)
        thr.push_back(sim_spawn(46 + c, [&, c]() {
            for (auto &o : plan[(size_t)(nc + c)]) {
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                Raw r;
                std::string p;
                if (!r.open(5101, o.kind != 0)) continue;
                switch (o.kind % 8) {
                    case 1: r.send(std::string("\xfa\xde\xfa\xce", 4)); break;                    // part of a message
                    case 2: r.send(Raw::frame(Raw::str("bulk"), 1)); break;                          // leaves without the response
                    case 3: for (int i = 0; i < 5; i++) r.send(Raw::frame(Raw::str("bulk"), 1)); sim_sleep(20 * MS); break;
                    case 4: if (SockP s = hp_sock(r.fd)) s->linger0 = true; break;
                    case 5: r.ask("(put 5)", &p, SEC); break;
                    case 6: { std::string f = Raw::frame(Raw::str("(set n (+ n 1))"), 0); r.send(f + f + f.substr(0, f.size() / 2)); break; }
                    case 7: { s64 t0 = S.now; while (!gone && S.now - t0 < 30 * SEC) { bool eof = false; if (hp_recv(r.fd, 1, 100 * MS, &eof); eof) break; } break; }   // stays until the server is gone
                }
                r.close();
            }
        }));
    // ------------------------------ the end
    bool sig = how >= 5 && how <= 8;
    if (when) sim_sleep(when);
    int t = sim_spawn(45, [&]() {
        if (srv.done || gone) return;
        if (sig) {
            if (how == 8) sim_wait([&]() { return g_net_accepted[0] > 0; }, S.now + 20 * MS, "a connection");
            if (!told) { told = true; told_at = S.now; }
            for (int i = 0; i < (how == 6 ? 3 : 1); i++) { sim_signal(0, SIGINT); if (how == 6) sim_sleep(gap); }
            return;
        }
        if (how == 2) return;
        // told by a client: once at least
        for (int i = 0; i < 50 && !told; i++) {
            Raw r;
            std::string p;
            if (how == 3 || how == 4) { if (r.open(5101)) r.ask("1", &p, SEC); r.close(); sim_sleep(200 * MS); continue; }
            if (!r.open(5101)) break;
            switch (how) {
                case 0: r.send(Raw::frame(Raw::str("(bye 0)"), 1)); sim_sleep(SEC); break;
                case 1: r.send(Raw::frame(Raw::str("(bye 0)"), 0)); sim_sleep(SEC); break;
                case 9: r.send(Raw::frame(Raw::str("(do (bye 0) (raise \"no\"))"), 1)); sim_sleep(SEC); break;
                default: r.send(Raw::frame(Raw::str("1"), 1) + Raw::frame(Raw::str("(bye 0)"), 0) + Raw::frame(Raw::str("bulk"), 1)); sim_sleep(SEC); break;
            }
            r.close();
        }
    });
    if (sim_wait([&]() { return told; }, S.now + 120 * SEC, "told to end")) { if (how != 3 && how != 4) violation("not_told", "the server has not evaluated the request to end for 120 s"); violation("not_told", "a callback that ends the server has not run"); }
    const s64 BOUND = 12 * SEC;      // a wait for a peer in the meantime gives up after a few seconds
    if (sim_wait([&]() { return srv.done; }, told_at + BOUND, "end of the server")) violation("does_not_end", "the server still runs %lld s after it was told to end (by %s)", (long long)(S.now - told_at) / SEC, sig ? "a signal" : how == 2 ? "a timer" : how == 3 || how == 4 ? "a callback of a connection" : "a request");
    if (sig ? srv.rc != 0 && !(how == 2 && srv.rc == code) : srv.rc != code) violation("exit_code", "the server ends with %d; it was told to end with %d", srv.rc, sig ? 0 : code);
    probe(sig ? 1 : 0);
    if (sim_wait([&]() { return gone; }, S.now + BOUND, "release")) violation("does_not_end", "the server has not released everything after %lld s", (long long)BOUND / SEC);
    if (!wait_thr_for(srv.thr, 10 * SEC)) violation("does_not_end", "the server's main thread does not end");
    if (net_listening(5101)) violation("left_listening", "the port of the ended server still takes connections");
    int fd = node_fd_count(0, File::SOCK) + node_fd_count(0, File::EPOLL) + node_fd_count(0, File::EVENTFD);   // a file handle belongs to who opened it
    if (fd) violation("descriptors", "%d descriptors are open after the end of the server:%s", fd, node_fd_desc(0).c_str());
    u64 maps = 0, len = 0;
    for (auto &m : g_maps) if (m.second.node == 0) { maps++; len += m.second.len; }
    if (g_heap[0].live) violation("memory_left", "%lld allocations are live after the end of the server", (long long)g_heap[0].live);
    if (maps) { leak_report(0); violation("memory_left", "%llu mappings (%llu bytes) are left after the end of the server", (unsigned long long)maps, (unsigned long long)len); }
    for (auto &x : S.thr) if (x->node == 0 && x->st != Thr::DONE) violation("worker_left", "thread t%d still exists after the end of the server", x->id);
    for (auto &kv : open_conn) if (kv.second > 0) violation("close_callback", ".z.pc has not run for handle %lld by the end of the server", (long long)kv.first);
    probe(2);
    g_nf.on = false;
    for (int x : thr) if (!wait_thr_for(x, 400 * SEC)) violation("client_stuck", "a client of a server that has ended does not come to an end");
    if (!wait_thr_for(t, 400 * SEC)) violation("client_stuck", "a client of a server that has ended does not come to an end");
    // another one takes its place
    if (successor) {
        Server s2;
        s2.node = 1;
        start_server(s2, {});
        int u = sim_spawn(50, [&]() {
            Raw r;
            std::string p;
            std::vector<s64> v;
            if (!r.open(5101) || !r.ask("(+ 40 2)", &p) || !Raw::ints(p, &v) || v[0] != 42) violation("no_successor", "another server on the same port does not answer");
            r.close();
        });
        if (!wait_thr_for(u, 100 * SEC)) violation("no_successor", "another server on the same port does not answer");
        probe(3);
    }
    g_out_hook = nullptr;
}
