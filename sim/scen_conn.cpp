// Connections: lifecycle of handles, bounded waiting.
#include "ipcx.h"
#include <set>
#include <netinet/in.h>
#include <sys/socket.h>

// ================================================================== C09
namespace c09 {
struct Op { int kind, slot, slot2; s64 pause; bool keep; };
struct Slot { s64 h = -1, sid = -1; bool dead = false; };   // handle, the server's handle of the same connection
}
SCENARIO(C09, "a connection is opened once, closed once, and gives back everything it held") {
    using namespace c09;
    policy_io();
    int nc = (int)w.range(1, 3);
    bool bad = w.chance(0.5);
    int po = w.chance(0.5) ? 0 : (int)w.range(1, 6), pc = w.chance(0.4) ? 0 : (int)w.range(1, 6);
    int rounds = w.chance(0.4) ? 4 : 1;
    bool crash = bad && rounds == 1 && w.chance(0.3);
    describe("clients=%d po=%d pc=%d rounds=%d%s%s", nc, po, pc, rounds, bad ? " breaking" : "", crash ? " dying" : "");
    benign_net(w);
    int nraw = w.chance(0.5) ? (int)w.range(1, 2) : 0;
    std::vector<std::vector<Op>> plan((size_t)(nc + nraw));
    for (auto &v : plan) {
        int m = (int)w.range(3, 14);
        for (int i = 0; i < m; i++) {
            Op o;
            o.kind = (int)w.pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
            o.slot = (int)w.below(4);
            o.slot2 = (int)w.below(4);
            o.pause = w.chance(0.3) ? w.range(1, 3000) * 1000 : 0;
            v.push_back(o);
        }
    }
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    // the hooks record every event first and then do something awkward
    static const char *pos[] = {"0", "(write (neg x) \"1\")", "(hclose x)", "(raise \"po\")", "(hv 0)", "(set victim x)", "(gc)"};
    static const char *pcs[] = {"0", "(write (neg x) \"1\")", "(hclose x)", "(raise \"pc\")", "(hv 0)", "(write (neg victim) \"1\")", "(gc)"};
    std::vector<std::string> defs = {
        "(set ev [0])", "(set bad 0)", "(set victim 999999)", "(set bulk (til 15000))",
        strf("(set .z.po (fn [x] (do (set ev (concat ev (+ 1 (* 2 x)))) (set bad (+ bad (if (== x .z.w) 0 1))) %s)))", pos[po]),
        strf("(set .z.pc (fn [x] (do (set ev (concat ev (* 2 x))) (set bad (+ bad (if (== x .z.w) 0 1))) %s)))", pcs[pc]),
        "(set rej (fn [x] (do (hclose .z.w) 5)))",
        "(set drop (fn [x] (do (hclose x) 6)))",
        "(set back (fn [s] (do (write .z.w s) .z.w)))",
        "(set vic (fn [x] (set victim .z.w)))",
        "(set hv (fn [q] (do (set vv victim) (set victim 999999) (hclose vv))))",
    };
    Server srv;
    start_server(srv, defs);
    bool server_closes = po == 2 || po == 4 || pc == 4;   // the server's hooks close connections of clients
    if (bad) {
        g_nf.p_reset = w.pick(std::vector<double>{0.001, 0.005, 0.03});
        g_nf.p_rstdrop = w.pick(std::vector<double>{0, 0.5, 1});
        g_nf.p_refuse = w.pick(std::vector<double>{0, 0.1});
        g_nf.p_accept = w.pick(std::vector<double>{0, 0.1});
        describe(" reset=%.4f", g_nf.p_reset);
    }
    s64 kill_at = w.range(1, 200) * 100000;
    sim_sleep(50 * MS);
    int fd0 = node_fd_count(0);
    s64 sel0 = node_api[0]->selectors_live();
    std::map<s64, int> live;     // the server's handles known to be in use
    u64 confirmed = 0;           // connections the server has answered on
    int arrived = 0, turn = 0;
    bool arrived0 = false;
    g_nf.on = true;
    std::vector<int> thr;
    std::vector<int> cfd((size_t)nc, 0);
    for (int c = 0; c < nc; c++) {
        thr.push_back(spawn_node(2 + c, [&, c]() {
            Node n(2 + c);
            n.create({"-c", "1"});
            n.must("(set cpc [0])");
            n.must("(set .z.pc (fn [x] (set cpc (concat cpc x))))");
            n.must("(set bye (fn [x] (hclose x)))");
            std::multiset<s64> opened;
            Slot sl[4];
            cfd[(size_t)c] = node_fd_count(2 + c);
            auto gone = [&](Slot &s) { s.dead = true; if (s.sid >= 0 && live.count(s.sid) && live[s.sid] == c) live.erase(s.sid); };
            auto use = [&](Slot &s, bool may_fail, const char *why) -> bool {   // a request that returns the server's handle of this connection
                std::string r = n.eval(strf("(write %lld \".z.w\")", (long long)s.h));
                if (r == "ERR") {
                    if (!may_fail && !bad && !server_closes) violation("request_failed", "client %d: a request on a live connection fails %s", c, why);
                    gone(s);
                    return false;
                }
                s64 id = atoll(r.c_str());
                if (s.dead) violation("closed_usable", "client %d: handle %lld answers although %s", c, (long long)s.h, why);
                if (id <= 0) violation("handle", "client %d: within a request .z.w is %s", c, r.c_str());
                if (s.sid >= 0 && s.sid != id) violation("handle", "client %d: .z.w of one connection is %lld and later %lld", c, (long long)s.sid, (long long)id);
                if (!bad && !server_closes && s.sid < 0) {
                    if (live.count(id)) violation("handle", "client %d: handle %lld is given to two connections that are open at the same time", c, (long long)id);
                    live[id] = c;
                }
                if (s.sid < 0) confirmed++;
                s.sid = id;
                probe(0);
                return true;
            };
            auto open = [&](Slot &s) {
                if (s.h >= 0 && !s.dead) return;
                s = Slot();
                std::string r = n.eval("(hopen \"127.0.0.1:5101\")");
                if (r == "ERR") { if (!bad && !server_closes) violation("open_failed", "client %d: opening a connection to a running server fails", c); return; }
                s64 h = atoll(r.c_str());
                for (auto &x : sl) if (!x.dead && x.h == h) violation("handle", "client %d: hopen returns handle %lld which is in use", c, (long long)h);
                s.h = h;
                opened.insert(h);
            };
            auto unusable = [&](Slot &s, const char *why) { s.dead = true; use(s, true, why); };
            for (int q = 0; q < rounds; q++) {
                for (auto &o : plan[(size_t)c]) {
                    if (!o.keep) continue;
                    if (o.pause) sim_sleep(o.pause);
                    Slot &s = sl[o.slot], &t = sl[o.slot2];
                    if (o.kind < 9) open(s);
                    bool on = s.h >= 0 && !s.dead;
                    switch (o.kind) {
                        case 0: open(s); break;
                        case 1: if (on) use(s, false, ""); break;
                        case 2:
                            if (!on) break;
                            gone(s);
                            n.ok(strf("(hclose %lld)", (long long)s.h));
                            unusable(s, "it has been closed");
                            break;
                        case 3: // the server closes the connection the request comes from
                            if (!on || !use(s, false, "")) break;
                            gone(s);
                            n.ok(strf("(write %lld (list 'rej 0))", (long long)s.h));
                            unusable(s, "the server has closed the connection");
                            break;
                        case 4: // the server closes another connection of this client
                            if (!on || &s == &t || t.h < 0 || t.dead || !use(t, false, "") || !use(s, false, "")) break;
                            gone(t);
                            if (n.eval(strf("(write %lld (list 'drop %lld))", (long long)s.h, (long long)t.sid)) == "ERR") { if (!bad && !server_closes) violation("request_failed", "client %d: closing another connection fails", c); gone(s); n.ok(strf("(hclose %lld)", (long long)t.h)); break; }
                            unusable(t, "the server has closed the connection");
                            probe(1);
                            break;
                        case 5: // closing twice
                            if (!on) break;
                            gone(s);
                            n.ok(strf("(hclose %lld)", (long long)s.h));
                            n.ok(strf("(hclose %lld)", (long long)s.h));
                            if (&t != &s && t.h >= 0 && !t.dead) use(t, false, "after closing another handle twice");
                            break;
                        case 6: if (on) { gone(s); n.ok(strf("(write %lld (list 'rej 0))", -(long long)s.h)); sim_sleep(50 * MS); unusable(s, "the server has closed the connection"); } break;
                        case 7: // the client closes the connection while it waits for a response on it
                            if (!on) break;
                            gone(s);
                            if (n.eval(strf("(write %lld \"(back \\\"(bye %lld)\\\")\")", (long long)s.h, (long long)s.h)) != "ERR" && !bad) violation("closed_usable", "client %d: a response arrives on a handle closed in the meantime", c);
                            unusable(s, "it has been closed");
                            probe(2);
                            break;
                        case 8: if (on && !n.ok(strf("(write %lld (list 'vic 0))", -(long long)s.h))) gone(s); break;
                        case 9: sim_sleep(o.pause * 3); break;
                        case 10: // closed while the server still has messages to send over it
                        case 11: // closed while messages wait to be sent
                            if (!on) break;
                            gone(s);
                            for (int k = 0; k <= o.slot2; k++) n.ok(strf(o.kind == 10 ? "(write %lld \"(write (neg .z.w) bulk)\")" : "(write %lld (list 'count (til 15000)))", -(long long)s.h));
                            if (o.kind == 10) sim_sleep(o.pause + 2 * MS);
                            n.ok(strf("(hclose %lld)", (long long)s.h));
                            unusable(s, "it has been closed");
                            probe(3);
                            break;
                    }
                }
                // everything the client has is closed
                for (auto &s : sl) if (s.h >= 0 && !s.dead) { gone(s); n.ok(strf("(hclose %lld)", (long long)s.h)); }
                for (auto &s : sl) s = Slot();
                int f = node_fd_count(2 + c);
                if (f != cfd[(size_t)c]) violation("descriptors", "client %d has closed all its handles but holds %d descriptors, %d before:%s", c, f, cfd[(size_t)c], node_fd_desc(2 + c).c_str());
                u64 nclosed = 0;
                for (s64 h : std::set<s64>(opened.begin(), opened.end())) {
                    s64 k = atoll(n.eval(strf("(sum (as 'I64 (== cpc %lld)))", (long long)h)).c_str());
                    if (k != (s64)opened.count(h)) violation("close_callback", "client %d: handle %lld was opened %zu times, .z.pc ran %lld times for it", c, (long long)h, opened.count(h), (long long)k);
                    nclosed += (u64)k;
                }
                if (atoll(n.eval("(count cpc)").c_str()) != (s64)nclosed + 1) violation("close_callback", "client %d: .z.pc ran for a handle that was never opened", c);
                arrived++;
                if (c == 0) arrived0 = true;
                sim_wait([&]() { return turn > q; }, -1, "next round");
            }
        }));
    }
    std::vector<int> rthr;
    bool rawstop = false;
    for (int c = 0; c < nraw; c++) {
        rthr.push_back(sim_spawn(40 + c, [&, c]() {
            for (int q = 0; q < rounds; q++) {
                for (auto &o : plan[(size_t)(nc + c)]) {
                    if (!o.keep) continue;
                    if (o.pause) sim_sleep(o.pause);
                    Raw r;
                    switch (o.kind % 7) {
                        case 0: r.open(5101, false); break;                                    // connects and leaves
                        case 1: r.open(5101, false); if (r.fd >= 0) r.send("\x01"); break;      // half a handshake
                        case 2: r.open(5101); break;
                        case 3: if (r.open(5101)) r.send(Raw::frame(Raw::str("(+ 1 1)"), 1).substr(0, 12)); break;   // half a message
                        case 4: if (r.open(5101)) { simc_shutdown(r.fd, 1); hp_recv(r.fd, 100000, 2 * SEC, nullptr); } break;
                        case 6: // leaves with several answers outstanding
                            if (r.open(5101)) for (int k = 0; k <= o.slot2; k++) r.send(Raw::frame(Raw::str("bulk"), 1));
                            sim_sleep(o.pause + 2 * MS);
                            break;
                        case 5: if (r.open(5101)) { if (SockP s = hp_sock(r.fd)) s->linger0 = true; } break;
                    }
                    r.close();
                }
                arrived++;
                sim_wait([&]() { return turn > q; }, -1, "next round");
            }
        }));
    }
    if (crash) {
        sim_sleep(kill_at);
        if (arrived < nc + nraw && !sim_thread_done(thr[0])) {
            fault(FK_CRASH);
            io_node_died(2);
            sim_kill_node(2);
        } else crash = false;
    }
    s64 lv[8][8] = {{0}};
    for (int q = 0; q < rounds; q++) {
        int want = (nc + nraw) * (q + 1);
        if (sim_wait([&]() { int a = arrived; if (crash && !arrived0) a++; return a >= want; }, S.now + 900 * SEC, "all clients done")) violation("stuck", "a client has not finished within 900 s of simulated time");
        bool on = g_nf.on;
        g_nf.on = false;
        sim_sleep(300 * MS);
        int fd1 = node_fd_count(0);
        if (fd1 != fd0) violation("descriptors", "all connections are closed but the server holds %d descriptors, before them %d:%s", fd1, fd0, node_fd_desc(0).c_str());
        s64 sel = node_api[0]->selectors_live();
        if (sel != sel0) violation("selectors", "all connections are closed but the server has %lld registered, before them %lld", (long long)sel, (long long)sel0);
        lv[0][q] = g_heap[0].live;
        for (int c = 0; c < nc; c++) lv[2 + c][q] = g_heap[2 + c].live;
        if (q == 3) for (int k = 0; k < 8; k++)
            if (lv[k][3] > lv[k][2] && lv[k][2] > lv[k][1] && lv[k][1] > lv[k][0]) violation("memory_left", "repeating the same connections leaves %lld more allocations in process %d", (long long)(lv[k][3] - lv[k][2]), k);
        g_nf.on = on;
        turn = q + 1;
    }
    (void)rawstop;
    g_nf.on = false;
    for (int c = 0; c < nc; c++) if (!wait_thr_for(thr[(size_t)c], 100 * SEC)) violation("stuck", "a client does not end");
    if (srv.done) violation("server_gone", "the server ended");
    int t = sim_spawn(50, [&]() {
        Raw r;
        std::string p;
        std::vector<s64> ev, b;
        if (po == 2) { r.open(5101); r.close(); return; }      // every connection is rejected
        if (server_closes && (!r.open(5101) || !r.ask("1", &p))) r.close();   // may be the last one a hook closes
        if ((r.fd < 0 && !r.open(5101)) || !r.ask("ev", &p) || !Raw::ints(p, &ev)) violation("server_gone", "the server does not answer once faults have stopped");
        if (!r.ask("bad", &p) || !Raw::ints(p, &b)) violation("server_gone", "the server does not answer once faults have stopped");
        if (b[0] != 0) violation("handle", "%lld times .z.w was not the handle the callback was called with", (long long)b[0]);
        u64 acc = g_net_accepted[0];
        std::map<s64, int> open;
        u64 no = 0, ncl = 0;
        if (!ev.empty()) ev.pop_back();      // the connection that asks
        for (size_t i = 1; i < ev.size(); i++) {
            s64 h = ev[i] / 2;
            if (ev[i] & 1) {
                no++;
                if (open[h]++) violation("open_callback", "event %zu: .z.po runs for handle %lld which has not been closed since it was opened", i, (long long)h);
            } else {
                ncl++;
                if (open[h]) open[h]--;
            }
        }
        for (auto &kv : open) if (kv.second) violation("close_callback", ".z.pc never ran for handle %lld although its connection is gone", (long long)kv.first);
        if (no > acc || ncl > acc) violation("close_callback", "%llu connections were accepted; .z.po ran %llu times, .z.pc %llu times", (unsigned long long)acc, (unsigned long long)no, (unsigned long long)ncl);
        if (no < confirmed) violation("open_callback", "the server answered on %llu connections but .z.po ran %llu times", (unsigned long long)confirmed, (unsigned long long)no);
        if (!nraw && !bad && !server_closes && no != ncl) violation("close_callback", ".z.po ran %llu times, .z.pc %llu times", (unsigned long long)no, (unsigned long long)ncl);
        r.close();
    });
    if (!wait_thr_for(t, 100 * SEC)) violation("stuck", "the server does not answer once faults have stopped");
}
// ================================================================== C10
namespace c10 {
// what the odd server does with one connection, and with one request
struct H { int kind; s64 delay; s64 timeout_ms; };
struct Rq { int kind; s64 d; int m; bool sig; bool keep; s64 pause; int size; s64 jump; };
}
SCENARIO(C10, "whatever the other side does or fails to do, a call that waits for it ends within bounded time, and late answers go to nobody") {
    using namespace c10;
    policy_io();
    benign_net(w);
    bool via = w.chance(0.4);      // the calls are relayed by a server under test that has other clients
    int nb = via ? (int)w.range(0, 2) : 0;
    describe(" %s others=%d", via ? "relayed" : "direct", nb);
    std::vector<Rq> plan;
    int m = (int)w.range(2, 9);
    for (int i = 0; i < m; i++) {
        Rq r;
        r.kind = (int)w.below(22);
        r.d = w.range(1, 2000) * MS;
        r.m = (int)w.range(1, 5);
        r.sig = w.chance(0.3);
        r.pause = w.chance(0.3) ? w.range(1, 300) * MS : 0;
        r.size = w.chance(0.2) ? (int)w.range(100, 3000) : (int)w.range(1, 10);
        r.jump = w.chance(0.3) ? w.pick(std::vector<s64>{-3600, -2, 2, 3600, 86400}) * SEC : 0;
        plan.push_back(r);
    }
    for (auto &r : plan) r.keep = op_keep();
    const s64 GIVEUP = 30 * SEC;       // bound on any wait after the last sign of life
    const s64 SLACK = 2 * SEC;
    s64 sign = 0;                      // last sign of life of the odd server
    bool quit = false;
    Rq cur{};
    s64 serial = 0, nested_seen = 0;
    std::vector<int> conns_thr;
    // ------------------------------ the odd server (port 6001), a new connection per step
    int odd = sim_spawn(40, [&]() {
        int ls = simc_socket(AF_INET, SOCK_STREAM, 0);
        struct sockaddr_in sa;
        memset(&sa, 0, sizeof sa);
        sa.sin_family = AF_INET;
        sa.sin_port = htons(6001);
        simc_bind(ls, &sa, sizeof sa);
        simc_listen(ls, 5);
        while (!quit) {
            int fd = simc_accept(ls, nullptr, nullptr);
            if (quit) { simc_close(fd); break; }
            if (fd < 0) continue;
            sign = S.now;
            Rq r = cur;
            conns_thr.push_back(sim_spawn(40, [&, fd, r]() {
            bool eof = false;
            Raw x;
            x.fd = fd;
            auto done = [&]() { if (x.fd >= 0) simc_close(x.fd); x.fd = -1; };
            std::string hs = hp_recv(fd, 2, 5 * SEC, &eof);
            if (hs.size() < 2) { done(); return; }
            if (r.kind == 0) { fault(FK_PEER_SILENT); while (!eof && !quit) hp_recv(fd, 1, 1 * SEC, &eof); done(); return; }      // no handshake ever
            if (r.kind == 1) { fault(FK_PEER_SILENT); sim_sleep(r.d); }                        // a late one
            if (r.kind == 2) { done(); return; }                     // hangs up instead
            hp_send(fd, "\x01");
            sign = S.now;
            if (r.kind == 3) { // reads nothing at all
                fault(FK_PEER_SILENT);
                if (SockP s = hp_sock(fd)) { s->cap = 64; if (SockP p = s->peer.lock()) p->cap = 64; }
                while (!quit && sign >= 0 && cur.kind == 3) sim_sleep(50 * MS);
                done();
                return;
            }
            // requests until the connection ends
            int ty;
            std::string p;
            while (!quit && x.recv(&ty, &p, 3600 * SEC)) {
                sign = S.now;
                if (ty != 1) continue;
                Rq q = cur;
                s64 me = ++serial;
                std::string body = Raw::i64v(std::vector<s64>((size_t)q.size, me)), f = Raw::frame(body, 2);
                auto snd = [&](const std::string &b) { bool o = x.send(b); sign = S.now; return o; };
                switch (q.kind) {
                    case 4: case 5: fault(FK_PEER_SILENT); sim_sleep(q.d); snd(f); break;                                   // slow
                    case 6: case 7: { // a trickle
                        fault(FK_PEER_SILENT);
                        std::vector<size_t> cut;
                        for (int i = 0; i < q.m; i++) cut.push_back((size_t)(((u64)q.d * 7919 + (u64)i * 104729) % f.size()));
                        cut.push_back(f.size());
                        std::sort(cut.begin(), cut.end());
                        size_t at = 0;
                        bool o = true;
                        for (size_t c : cut) { if (c > at && o) { o = snd(f.substr(at, c - at)); at = c; if (at < f.size()) sim_sleep(q.d); } }
                        break;
                    }
                    case 8: fault(FK_PEER_SILENT); break;                                                                   // never
                    case 9: case 10: fault(FK_PEER_SILENT); sim_sleep(40 * SEC); snd(f); break;                             // far too late
                    case 11: case 12: fault(FK_PEER_SILENT); snd(f.substr(0, std::min(f.size() - 1, (size_t)(1 + q.d % 40)))); break;   // a part only
                    case 13: fault(FK_PEER_SILENT); snd(f.substr(0, std::min(f.size() - 1, (size_t)(q.d % 40)))); done(); break;       // a part, then hangs up
                    case 14: for (int i = 0; i < q.m; i++) { snd(Raw::frame(Raw::str("(set pushed (+ pushed 1))"), 0)); sim_sleep(q.d); } snd(f); break;
                    case 15: fault(FK_PEER_SILENT); for (int i = 0; i < q.m; i++) { snd(Raw::frame(Raw::str("(set pushed (+ pushed 1))"), 0)); sim_sleep(q.d); } break;   // pushes, never answers
                    case 16: { // asks back first
                        snd(Raw::frame(Raw::str("(set pushed (+ pushed 1))"), 1));
                        int t2;
                        std::string p2;
                        if (x.recv(&t2, &p2, 60 * SEC) && t2 == 2) nested_seen++;
                        snd(f);
                        break;
                    }
                    case 17: fault(FK_PEER_SILENT); snd(Raw::frame(Raw::str("(set pushed (+ pushed 1))"), 1)); break;       // asks back, never answers
                    case 18: fault(FK_PEER_SILENT); if (SockP s = hp_sock(fd)) s->linger0 = true; done(); break;            // reset
                    default: snd(f); break;
                }
                if (x.fd < 0) break;
            }
            done();
            }));
        }
        simc_close(ls);
    });
    if (sim_wait([]() { return net_listening(6001); }, S.now + SEC, "odd server")) violation("setup_failed", "odd server");
    Server srv;
    if (via) {
        auto defs = base_defs;
        defs.push_back("(set pushed 0)");
        defs.push_back("(set up 0)");
        defs.push_back("(set con (fn [t] (set up (hopen \"127.0.0.1:6001\" t))))");
        defs.push_back("(set ask (fn [s] (write up s)))");
        defs.push_back("(set dis (fn [s] (hclose up)))");
        start_server(srv, defs);
    }
    g_nf.on = true;
    // a call and its verdict: must = 1 has to succeed, 0 has to fail, 2 may do either
    bool client_done = false;
    s64 sig_until = 0;
    int noise = sim_spawn(45, [&]() { // signals interrupt whatever waits
        while (!client_done) {
            sim_sleep(170 * MS);
            if (cur.sig && S.now < sig_until) sim_signal(via ? 0 : 2, 0);
        }
    });
    int cl = spawn_node(2, [&]() {
        Node n(2);
        n.create({"-c", "1"});
        n.must("(set pushed 0)");
        if (via) {
            if (conn_open(n, 5101, 1).empty()) violation("open_failed", "a client can not connect to a running server");
        }
        auto relive = [&]() { // after a relayed call that took long the connection to the relaying server may be gone
            if (!via) return;
            if (n.eval("(write h \"1\")") == "1") return;
            if (conn_open(n, 5101, 100).empty()) violation("not_accepting", "the relaying server does not take new connections any more");
            s64 t0 = S.now;
            while (n.eval("(write h \"1\")") != "1") {
                if (S.now - t0 > 60 * SEC) violation("stuck", "the relaying server does not answer within 60 s of simulated time after the peer it waited for fell silent");
                sim_sleep(500 * MS);
                conn_open(n, 5101, 100);
            }
        };
        auto run = [&](const std::string &direct, const std::string &relayed) { return n.eval(via ? relayed : direct, nullptr, 1 << 22); };
        for (auto &r : plan) {
            if (!r.keep) continue;
            if (r.pause) sim_sleep(r.pause);
            cur = r;
            sign = S.now;
            sig_until = S.now + 8 * SEC;     // (a call may start over when it is interrupted)
            if (r.jump) { fault(FK_CLOCK_JUMP); S.real_off += r.jump; }
            s64 T = r.kind == 0 ? r.d / MS + 1 : r.kind == 1 ? (r.d % 2 ? r.d / MS + 700 : std::max<s64>(1, r.d / MS / 2)) : 2000 + r.d / MS % 1000;
            if (r.kind == 3) T = 5000;
            if (r.kind > 3 && r.d % 3 == 0 && !via) T = 0;     // no timeout
            int must = r.kind == 0 || r.kind == 2 ? 0 : r.kind == 1 ? (T * MS > r.d + 500 * MS ? 1 : T * MS < r.d - 300 * MS && !r.sig ? 0 : 2) : 1;
            s64 t0 = S.now;
            std::string got = run(T ? strf("(set g (hopen \"127.0.0.1:6001\" %lld))", (long long)T) : "(set g (hopen \"127.0.0.1:6001\"))",
                                  strf("(write h (list 'con %lld))", (long long)T));
            bool ok = got != "ERR";
            note("open kind %d: %s after %lld ms", r.kind, got.c_str(), (long long)(S.now - t0) / 1000000);
            // a connection to the relaying server gives up on its own after a while without progress
            if (must == 1 && !ok && !(via && S.now - t0 > 1500 * MS)) violation("open_failed", "hopen with a timeout of %lld ms fails after %lld ms although the peer shakes hands after %lld ms", (long long)T, (long long)(S.now - t0) / MS, (long long)(r.kind == 1 ? r.d / MS : 0));
            if (must == 0 && ok) violation("open_succeeds", "hopen with a timeout of %lld ms succeeds after %lld ms although the peer %s", (long long)T, (long long)(S.now - t0) / MS, r.kind == 2 ? "hangs up" : "does not shake hands in time");
            if (!r.sig && r.kind < 2 && S.now - t0 > T * MS + SLACK) violation("open_late", "hopen with a timeout of %lld ms returns after %lld ms", (long long)T, (long long)(S.now - t0) / MS);
            probe(ok ? 0 : 1);
            if (!ok) { cur.kind = 99; cur.sig = false; if (via) { sim_sleep(4 * SEC); relive(); } continue; }
            for (int i = 0; i < 2; i++) {
                s64 before = serial;
                sign = S.now;
                sig_until = S.now + 8 * SEC;
                t0 = S.now;
                if (r.kind == 3) { // nobody reads: an asynchronous message does not wait, a synchronous one gives up
                    t0 = S.now;
                    run("(write (neg g) (til 3000))", "(write h \"(write (neg up) (til 3000))\")");
                    if (S.now - t0 > SLACK) violation("async_waits", "an asynchronous message to a peer that does not read takes %lld ms", (long long)(S.now - t0) / MS);
                    t0 = sign = S.now;
                    got = run("(write g \"1\")", "(write h (list 'ask \"1\"))");
                    must = 0;
                } else {
                    got = run("(write g \"1\")", "(write h (list 'ask \"1\"))");
                    must = r.kind == 8 || r.kind == 9 || r.kind == 10 || r.kind == 11 || r.kind == 12 || r.kind == 13 || r.kind == 15 || r.kind == 17 || r.kind == 18 ? 0 : 1;
                }
                s64 took = S.now - t0, quiet = S.now - std::max(sign, t0);
                ok = got != "ERR";
                note("ask kind %d: %.60s after %lld ms", r.kind, got.c_str(), (long long)took / 1000000);
                if (quiet > GIVEUP) violation("late", "a request returns %lld ms after the last sign of life of its peer (behaviour %d)", (long long)quiet / MS, r.kind);
                if (must == 0 && ok) violation("wrong_response", "a request that its peer did not answer (behaviour %d) gives %.100s", r.kind, got.c_str());
                if (must == 1 && !ok && !(via && took > 2500 * MS)) violation("gave_up", "a request fails after %lld ms although its peer kept answering with pauses of at most %lld ms (behaviour %d)", (long long)took / MS, (long long)r.d / MS, r.kind);
                if (ok) {
                    std::string want = "5#" + std::to_string(r.size) + "[";
                    for (int j = 0; j < r.size; j++) want += (j ? " " : "") + std::to_string(before + 1);
                    want += "]";
                    if (got != want) violation("wrong_response", "request %lld gives %.100s; expected %.100s", (long long)before + 1, got.c_str(), want.c_str());
                }
                probe(ok ? 2 : 3);
                if (!ok) {
                    if (must == 0 && !via) { // its connection is gone: using it again fails at once
                        t0 = S.now;
                        if (n.eval("(write g \"1\")") != "ERR") violation("wrong_response", "a request on a connection given up before gets an answer");
                        if (S.now - t0 > SEC) violation("late", "using a connection given up before takes %lld ms", (long long)(S.now - t0) / MS);
                    }
                    break;
                }
            }
            sign = S.now;
            cur.kind = 99;
            cur.sig = false;
            if (via) { relive(); n.ok("(write h (list 'dis 0))"); relive(); } else if (ok) n.ok("(hclose g)");
        }
        if (via) n.ok("(hclose h)");
        client_done = true;
    });
    // others use the relaying server at the same time: they may be put off while it waits, but not for long
    std::vector<int> oth;
    for (int b = 0; b < nb; b++)
        oth.push_back(spawn_node(3 + b, [&, b]() {
            Node n(3 + b);
            n.create({"-c", "1"});
            s64 last = S.now;
            while (!client_done) {
                std::string h = conn_open(n, 5101, 1);
                if (!h.empty()) {
                    for (int i = 0; i < 10 && !client_done; i++) {
                        std::string r = n.eval(strf("(write h (list 'echo %d))", i));
                        if (r == "ERR") break;
                        if (r != std::to_string(i)) violation("wrong_response", "another client asks for %d and gets %s", i, r.c_str());
                        last = S.now;
                        sim_sleep(100 * MS);
                    }
                    n.ok("(hclose h)");
                }
                if (S.now - last > 120 * SEC) violation("stuck", "another client of the relaying server got no answer for 120 s of simulated time");
                sim_sleep(200 * MS);
            }
        }));
    if (!wait_thr_for(cl, 3600 * SEC)) violation("stuck", "a call has not returned within an hour of simulated time");
    for (int t : oth) if (!wait_thr_for(t, 600 * SEC)) violation("stuck", "another client of the relaying server is stuck");
    wait_thr(noise);
    g_nf.on = false;
    quit = true;
    cur.kind = 99;
    int t = sim_spawn(50, [&]() {
        int fd = hp_connect(6001);
        if (fd >= 0) simc_close(fd);
        if (!via) return;
        Raw r;
        std::string p;
        std::vector<s64> v;
        if (!r.open(5101) || !r.ask("(+ 40 2)", &p) || !Raw::ints(p, &v) || v[0] != 42) violation("server_gone", "the relaying server does not answer at the end");
        r.close();
    });
    if (!wait_thr_for(t, 300 * SEC)) violation("stuck", "the relaying server does not answer at the end");
    for (int c : conns_thr) if (!wait_thr_for(c, 4000 * SEC)) violation("setup_failed", "the odd server does not end");
    if (!wait_thr_for(odd, 300 * SEC)) violation("setup_failed", "the odd server does not end");
}
