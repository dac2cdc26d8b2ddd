// Connections: requests and responses, ordering, hostile peers, lifecycle, bounded waiting.
#include "ipcx.h"

void policy_io() {
    SchedPolicy &sp = S.cf.sp;
    Rng &r = S.rng;
    sp.p_sync = r.pick(std::vector<double>{1.0, 0.5, 0.2, 0.05, 0.3});
    sp.acc_mean = 0;
    sp.p_conf = 0;
    S.use_conf = false;
    if (r.chance(0.2)) {
        sp.pct = true;
        sp.p_sync = 1.0;
        sp.pct_points = (int)r.range(1, 8);
        sp.pct_len = (u64)1 << r.range(8, 14);
        for (int i = 0; i < sp.pct_points; i++) S.pct_at.push_back(1 + r.below(sp.pct_len));
        std::sort(S.pct_at.begin(), S.pct_at.end());
    }
}
void start_server(Server &s, std::vector<std::string> defs, std::function<void(Node &)> pre, std::function<void(Node &)> post) {
    Server *p = &s;
    s.thr = spawn_node(s.node, [p, defs, pre, post]() {
        Node n(p->node);
        auto a = p->args;
        a.push_back("-p");
        a.push_back(std::to_string(p->port));
        n.create(a);
        for (auto &d : defs) n.must(d);
        if (pre) pre(n);
        p->up = true;
        p->rc = n.a->run();
        p->done = true;
        if (post) post(n);
    });
    if (sim_wait([p]() { return net_listening(p->port) || p->done; }, S.now + 600 * SEC, "server start")) violation("server_start", "node %d does not listen on its port", s.node);
    if (s.done) violation("server_start", "node %d ended instead of listening on its port: %s", s.node, g_out[s.node].c_str());
}
std::string esc(const std::string &s) {
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
    return o + "\"";
}
std::string payload_expr(Rng &w, int cls) {
    s64 n = cls == 0 ? w.range(0, 5) : cls == 1 ? w.range(1, 200) : cls == 2 ? w.range(500, 6000) : w.range(10000, 40000);
    if (w.chance(0.1)) n = (s64)1 << w.range(0, cls == 0 ? 3 : cls == 1 ? 8 : 13);
    std::string N = std::to_string(n);
    int u = (int)w.below(1000);
    switch (w.below(18)) {
        case 0: return "(til " + N + ")";
        case 1: return strf("(+ %d (til %s))", u, N.c_str());
        case 2: return strf("(* 0.5 (+ %d (til %s)))", u, N.c_str());
        case 3: return strf("(take [a%d bb ccc 0Ns] %s)", u, N.c_str());
        case 4: return strf("(table [k v] (list (til %s) (take ['x%d 'yy] %s)))", N.c_str(), u, N.c_str());
        case 5: return strf("(dict [a b c%d] (list 1 \"text %d\" (til %s)))", u, u, N.c_str());
        case 6: return strf("(take \"abcdefgh%d\" %s)", u, N.c_str());
        case 7: return strf("(take (list 1 \"x%d\" 2.5 [1 2 3]) %s)", u, std::to_string(n / 8 + 1).c_str());
        case 8: return strf("(as 'I16 (%% (+ %d (til %s)) 1000))", u, N.c_str());
        case 9: return strf("(as 'I32 (+ %d (til %s)))", u, N.c_str());
        case 10: return strf("(+ 2024.01.01 (%% (til %s) %d))", N.c_str(), u + 1);
        case 11: return strf("(> (%% (til %s) 7) %d)", N.c_str(), u % 7);
        case 12: return strf("(sum (til %s))", N.c_str());
        case 13: return strf("(as 'U8 (%% (+ %d (til %s)) 200))", u, N.c_str());
        case 14: return strf("(+ %d 1)", u);
        case 15: return strf("(list %d [] \"\" (list) (til %s))", u, N.c_str());
        case 16: return strf("(select {s: (sum v) by: k from: (table [k v] (list (%% (til %s) 7) (+ %d (til %s))))})", N.c_str(), u, N.c_str());
        default: return strf("\"plain text %d\"", u);
    }
}
std::string conn_open(Node &n, int port, int tries, const char *var) {
    for (int i = 0; i < tries; i++) {
        std::string r = n.eval(strf("(set %s (hopen \"127.0.0.1:%d\"))", var, port));
        if (r != "ERR") return r;
        sim_sleep(5 * MS);
    }
    return "";
}
// ------------------------------------------------------------------ raw peer
static void put(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); }
bool Raw::open(int port, bool handshake) {
    eof = false;
    fd = hp_connect(port);
    if (fd < 0) return false;
    if (!handshake) return true;
    if (!hp_send(fd, std::string("\x01\0", 2))) return false;
    std::string r = hp_recv(fd, 1, 20 * SEC, &eof);
    return r.size() == 1;
}
void Raw::close() { if (fd >= 0) simc_close(fd); fd = -1; }
std::string Raw::frame(const std::string &p, int t) {
    std::string s;
    u32 pre = 0xcefadefau;
    u8 v[4] = {1, 0, 0, (u8)t};
    s64 n = (s64)p.size();
    put(s, &pre, 4);
    put(s, v, 4);
    put(s, &n, 8);
    return s + p;
}
static std::string vec(int t, s64 n, const void *p, size_t b) { std::string s; s += (char)t; s += (char)0; put(s, &n, 8); put(s, p, b); return s; }
std::string Raw::str(const std::string &x) { return vec(12, (s64)x.size(), x.data(), x.size()); }
std::string Raw::i64(s64 v) { std::string s; s += (char)-5; put(s, &v, 8); return s; }
std::string Raw::i64v(const std::vector<s64> &v) { return vec(5, (s64)v.size(), v.data(), v.size() * 8); }
std::string Raw::sym(const std::string &x) { std::string s; s += (char)-6; return s + x + std::string(1, 0); }
std::string Raw::list(const std::vector<std::string> &v) { std::string s = vec(0, (s64)v.size(), "", 0); for (auto &x : v) s += x; return s; }
bool Raw::send(const std::string &b) { return hp_send(fd, b); }
bool Raw::recv(int *type, std::string *payload, s64 timeout) {
    std::string h = hp_recv(fd, 16, timeout, &eof);
    if (h.size() < 16) return false;
    u32 pre;
    s64 n;
    memcpy(&pre, h.data(), 4);
    memcpy(&n, h.data() + 8, 8);
    if (pre != 0xcefadefau) violation("wire_prefix", "a message from the program does not start with the protocol's prefix but with %08x: the stream is out of step", pre);
    if (n <= 0 || n > 1000000000) violation("wire_size", "a message from the program announces %lld bytes", (long long)n);
    *type = (u8)h[7];
    *payload = hp_recv(fd, (size_t)n, timeout, &eof);
    return payload->size() == (size_t)n;
}
bool Raw::ask(const std::string &src, std::string *payload, s64 timeout) {
    if (!send(frame(str(src), 1))) return false;
    int t;
    do { if (!recv(&t, payload, timeout)) return false; } while (t != 2);
    return true;
}
bool Raw::ints(const std::string &p, std::vector<s64> *v) {
    v->clear();
    s64 n;
    if (p.size() == 9 && p[0] == (char)-5) { memcpy(&n, p.data() + 1, 8); v->push_back(n); return true; }
    if (p.size() >= 10 && p[0] == 5) {
        memcpy(&n, p.data() + 2, 8);
        if (n < 0 || p.size() != 10 + (size_t)n * 8) return false;
        v->resize((size_t)n);
        if (n) memcpy(v->data(), p.data() + 10, (size_t)n * 8);
        return true;
    }
    return false;
}
// Delays and windows are kept in a proportion to the sizes of messages that lets any transfer finish long before a waiting
// party may give up: a request then has no excuse to fail.
int benign_net(Rng &w) {   // returns the largest size class of payloads
    g_nf = NetFaults();
    int reg = (int)w.below(3);
    g_nf.p_delay = w.pick(std::vector<double>{0, 0.1, 0.3});
    g_nf.delay_max_us = reg == 0 ? 50 : reg == 1 ? 2000 : 20000;
    g_nf.p_frag = w.pick(std::vector<double>{0, 0.1, 0.5, 0.9});
    g_nf.p_short = w.pick(std::vector<double>{0, 0.1, 0.5});
    g_nf.p_eintr = w.pick(std::vector<double>{0, 0, 0.05, 0.3});
    if (w.chance(0.5)) { g_nf.cap_lo = reg == 0 ? w.pick(std::vector<u64>{64, 1000, 4096}) : w.pick(std::vector<u64>{2000, 4096}); g_nf.cap_hi = g_nf.cap_lo * 4; }
    describe(" net[delay=%.1f/%lldus frag=%.1f short=%.1f eintr=%.2f cap=%llu]", g_nf.p_delay, (long long)g_nf.delay_max_us, g_nf.p_frag, g_nf.p_short, g_nf.p_eintr, (unsigned long long)g_nf.cap_lo);
    return reg == 0 ? (g_nf.cap_lo < 1000 ? 2 : 3) : reg == 1 ? 2 : 1;
}
extern const std::vector<std::string> base_defs;
const std::vector<std::string> base_defs = {
    "(set echo (fn [x] x))",
    "(set back (fn [s] (write .z.w s)))",
    "(set push (fn [s] (write (neg .z.w) s)))",
    "(set opened 0)",
    "(set .z.po (fn [x] (set opened (+ opened 1))))",
    "(set closed 0)",
    "(set .z.pc (fn [x] (set closed (+ closed 1))))",
};
// ================================================================== C06
namespace c06 {
struct Op { int kind; std::string a, b; s64 k, pause; bool keep; };
}
SCENARIO(C06, "every request is answered by its own response, whatever the network does to the byte stream") {
    using namespace c06;
    policy_io();
    int nc = (int)w.range(1, 4);
    bool relay = w.chance(0.4);
    describe("clients=%d%s", nc, relay ? " relay" : "");
    std::vector<std::vector<Op>> plan((size_t)nc);
    int top = benign_net(w);
    for (auto &v : plan) {
        int m = (int)w.range(3, 14);
        int big = w.chance(0.2) ? top : std::min(top, 2);
        for (int i = 0; i < m; i++) {
            Op o;
            o.kind = (int)w.pick(relay ? std::vector<int>{0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 9, 9, 10} : std::vector<int>{0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8});
            o.a = payload_expr(w, (int)w.range(0, big));
            o.b = payload_expr(w, (int)w.range(0, std::min(top, 2)));
            o.k = w.range(1, 1000);
            o.pause = w.chance(0.3) ? w.range(1, 3000) * 1000 : 0;
            if (w.chance(0.05)) o.pause = w.range(1, 5) * SEC;
            v.push_back(o);
        }
    }
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    Server up, srv;
    up.node = 1;
    up.port = 5102;
    std::vector<std::string> defs = base_defs;
    for (int c = 0; c < nc; c++) { defs.push_back(strf("(set cnt%d 0)", c)); defs.push_back(strf("(set bump%d (fn [k] (set cnt%d (+ cnt%d k)) cnt%d))", c, c, c, c)); }
    if (relay) {
        auto d = base_defs;
        d.push_back("(set got 0)");
        d.push_back("(set note (fn [k] (set got (+ got k)) got))");
        d.push_back("(set cb (fn [k] (write .z.w (list 'seen k))))");
        start_server(up, d);
        defs.push_back("(set total 0)");
        defs.push_back("(set seen (fn [k] (set total (+ total k)) total))");
        defs.push_back("(set via (fn [s] (write up s)))");
        start_server(srv, defs, [](Node &n) { n.must("(set up (hopen \"127.0.0.1:5102\"))"); });
    } else start_server(srv, defs);
    g_nf.on = true;
    std::vector<int> thr;
    std::vector<s64> cnt((size_t)nc, 0);
    s64 up_sum = 0, total = 0;
    for (int c = 0; c < nc; c++) {
        thr.push_back(spawn_node(2 + c, [&, c]() {
            Node n(2 + c);
            n.create({"-c", "1"});
            n.must("(set pushed 0)");
            n.must("(set rec (fn [k] (set pushed (+ pushed k)) pushed))");
            s64 pushed = 0;
            auto open = [&]() { if (n.eval("(set h (hopen \"127.0.0.1:5101\"))") == "ERR") violation("open_failed", "client %d: opening a connection to a running server failed: %s", c, n.fmt("h").c_str()); };
            open();
            auto expect = [&](const std::string &req, const std::string &got, const std::string &want, const char *what) {
                if (got != want && !same_value(got, want)) violation("wrong_response", "client %d: %s (%.150s) gives %.200s; expected %.200s", c, what, req.c_str(), got.c_str(), want.c_str());
                probe(0);
            };
            for (auto &o : plan[(size_t)c]) {
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                std::string req, got, want;
                switch (o.kind) {
                    case 0: req = "(write h " + esc(o.a) + ")"; want = n.eval(o.a, nullptr, 1 << 22); got = n.eval(req, nullptr, 1 << 22); expect(req, got, want, "evaluating text"); break;
                    case 1: { // an object as the message
                        void *v = n.a->eval(o.a.c_str());
                        int t = n.a->type(v);
                        bool okt = t != T_LIST && t != T_ERR && t != 126;
                        want = n.canon(v, nullptr, 1 << 22);
                        n.a->drop(v);
                        if (!okt) break;
                        req = "(write h (list 'echo " + o.a + "))";
                        got = n.eval(req, nullptr, 1 << 22);
                        expect(req, got, want, "echoing an object");
                        break;
                    }
                    case 2: req = "(write h \"(raise \\\"e\\\")\")"; got = n.eval(req); expect(req, got, "ERR", "a failing request"); break;
                    case 3: cnt[(size_t)c] += o.k; req = strf("(write h (list 'bump%d %lld))", c, (long long)o.k); want = std::to_string(cnt[(size_t)c]); got = n.eval(req); expect(req, got, want, "a counting request"); break;
                    case 4: req = "(write h (list 'back " + esc(o.a) + "))"; want = n.eval(o.a, nullptr, 1 << 22); got = n.eval(req, nullptr, 1 << 22); expect(req, got, want, "a request the server answers by asking back"); break;
                    case 5: { // ping-pong of depth k%5+1
                        std::string s = o.b;
                        for (int i = 0; i < o.k % 4 + 1; i++) s = i % 2 == 0 ? "(back " + esc(s) + ")" : "(write h " + esc(s) + ")";
                        if ((o.k % 4 + 1) % 2 == 0) s = "(back " + esc(s) + ")";
                        req = "(write h " + esc(s) + ")";
                        want = n.eval(o.b, nullptr, 1 << 22);
                        got = n.eval(req, nullptr, 1 << 22);
                        expect(req, got, want, "requests nested in both directions");
                        break;
                    }
                    case 6: { // the server pushes before it answers
                        int m = (int)(o.k % 5) + 1;
                        std::string s;
                        for (int i = 0; i < m; i++) { s += strf("(push (list 'rec %lld))", (long long)(o.k + i)); pushed += o.k + i; }
                        req = "(write h " + esc("(do " + s + " 77)") + ")";
                        got = n.eval(req);
                        expect(req, got, "77", "a request during which the server pushes");
                        got = n.eval("pushed");
                        if (got != std::to_string(pushed)) violation("push_lost", "client %d: messages pushed before the response add up to %s, expected %lld", c, got.c_str(), (long long)pushed);
                        break;
                    }
                    case 7: { // fire and forget, then read
                        int m = (int)(o.k % 6) + 1;
                        for (int i = 0; i < m; i++) {
                            cnt[(size_t)c] += o.k + i;
                            req = strf("(write (neg h) (list 'bump%d %lld))", c, (long long)(o.k + i));
                            if (n.eval(req) == "ERR") violation("async_failed", "client %d: %s failed on a live connection", c, req.c_str());
                        }
                        req = strf("(write h \"cnt%d\")", c);
                        want = std::to_string(cnt[(size_t)c]);
                        got = n.eval(req);
                        expect(req, got, want, "reading back what was sent before");
                        break;
                    }
                    case 8: if (!n.ok("(hclose h)")) violation("close_failed", "client %d: closing a live handle failed", c); open(); break;
                    case 9: req = "(write h (list 'via " + esc(o.a) + "))"; want = n.eval(o.a, nullptr, 1 << 22); got = n.eval(req, nullptr, 1 << 22); expect(req, got, want, "a relayed request"); break;
                    case 10: // relayed, with a call back into the relaying server over the same connection
                        up_sum += o.k;
                        total += o.k;
                        req = strf("(write h (list 'via \"(do (note %lld) (cb %lld) 5)\"))", (long long)o.k, (long long)o.k);
                        got = n.eval(req);
                        expect(req, got, "5", "a relayed request that calls back");
                        break;
                }
            }
            n.ok("(hclose h)");
        }));
    }
    for (int c = 0; c < nc; c++)
        if (!wait_thr_for(thr[(size_t)c], 900 * SEC)) violation("stuck", "client %d did not get its responses within 900 s of simulated time", c);
    g_nf.on = false;
    int t = sim_spawn(50, [&]() {
        Raw r;
        if (!r.open(5101)) violation("server_gone", "the server does not accept a connection at the end");
        std::string p;
        std::vector<s64> v;
        for (int c = 0; c < nc; c++) {
            if (!r.ask(strf("cnt%d", c), &p) || !Raw::ints(p, &v) || v.size() != 1) violation("server_gone", "the server does not answer at the end");
            if (v[0] != cnt[(size_t)c]) violation("count", "requests of client %d were executed for a total of %lld, expected %lld", c, (long long)v[0], (long long)cnt[(size_t)c]);
        }
        if (relay) {
            if (!r.ask("total", &p) || !Raw::ints(p, &v) || v[0] != total) violation("count", "calls back into the relaying server add up to %lld, expected %lld", (long long)(v.empty() ? -1 : v[0]), (long long)total);
            if (!r.ask("(write up \"got\")", &p) || !Raw::ints(p, &v) || v[0] != up_sum) violation("count", "relayed calls add up to %lld, expected %lld", (long long)(v.empty() ? -1 : v[0]), (long long)up_sum);
        }
        r.close();
    });
    if (!wait_thr_for(t, 100 * SEC)) violation("stuck", "the server does not answer once faults have stopped");
}
// ================================================================== C07
namespace c07 {
struct Op { int kind; s64 n, pause; int size; bool keep; };
struct Epoch { std::vector<s64> sent; size_t confirmed = 0; };   // one connection of one client
}
SCENARIO(C07, "messages of a connection are processed exactly once, in the order sent, up to the point where the connection ended") {
    using namespace c07;
    policy_io();
    int nc = (int)w.range(1, 4);
    bool bad = w.chance(0.6);            // connections may break
    bool crash = bad && w.chance(0.4);   // a client process may die
    describe("clients=%d%s%s", nc, bad ? " breaking" : "", crash ? " dying" : "");
    std::vector<std::vector<Op>> plan((size_t)nc);
    int top = benign_net(w);
    for (auto &v : plan) {
        int m = (int)w.range(3, 16);
        for (int i = 0; i < m; i++) {
            Op o;
            o.kind = (int)w.pick(std::vector<int>{0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 5});
            o.n = w.chance(0.2) ? w.range(5, 60) : w.range(1, 6);
            o.size = w.chance(0.3) ? (int)w.range(1, top == 1 ? 400 : 4000) : (int)w.range(0, 10);
            o.pause = w.chance(0.3) ? w.range(1, 3000) * 1000 : 0;
            v.push_back(o);
        }
    }
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    static std::vector<std::vector<Epoch>> ep;
    ep.assign((size_t)nc, {});
    const int MAXE = 12;
    Server srv;
    std::vector<std::string> defs = base_defs;
    for (int c = 0; c < nc; c++)
        for (int e = 0; e < MAXE; e++) {
            defs.push_back(strf("(set log%d_%d [0])", c, e));
            defs.push_back(strf("(set add%d_%d (fn [k x] (set log%d_%d (concat log%d_%d (+ k (sum x))))))", c, e, c, e, c, e));
        }
    defs.push_back("(set pushn (fn [m s] (map (fn [k] (write (neg .z.w) (list 'rec k (til sz)))) (+ m (til cnt)))))");
    defs.push_back("(set sz 1)");
    defs.push_back("(set cnt 1)");
    start_server(srv, defs);
    if (bad) {
        g_nf.p_reset = w.pick(std::vector<double>{0.0005, 0.003, 0.02});
        g_nf.p_rstdrop = w.pick(std::vector<double>{0, 0.5, 1});
        g_nf.p_refuse = w.pick(std::vector<double>{0, 0.1});
        g_nf.p_accept = w.pick(std::vector<double>{0, 0.1});
        describe(" reset=%.4f", g_nf.p_reset);
    }
    s64 kill_at = w.range(1, 300) * 100000;
    int hold_n = w.chance(0.4) ? (int)w.range(1, 5) : 0;
    std::vector<std::pair<s64, s64>> holds;
    for (int i = 0; i < hold_n; i++) holds.push_back({w.range(1, 40) * MS, w.range(1, 2000) * MS});
    g_nf.on = true;
    std::vector<int> thr;
    for (int c = 0; c < nc; c++) {
        thr.push_back(spawn_node(2 + c, [&, c]() {
            Node n(2 + c);
            n.create({"-c", "1"});
            n.must("(set got [0])");
            n.must("(set rec (fn [k x] (set got (concat got (+ k (sum x))))))");
            auto &E = ep[(size_t)c];
            bool live = false;
            auto open = [&]() {
                live = false;
                if (E.size() >= MAXE) return;
                std::string r = conn_open(n, 5101, bad ? 30 : 1);
                if (r.empty()) { if (!bad) violation("open_failed", "client %d: opening a connection failed although the network is reliable", c); return; }
                E.emplace_back();
                live = true;
                n.must("(set got [0])");
            };
            open();
            auto broke = [&](const std::string &what) {
                if (!bad) violation("request_failed", "client %d: %s failed although the network is reliable", c, what.c_str());
                live = false;
                probe(1);
            };
            s64 next = 1;
            for (auto &o : plan[(size_t)c]) {
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                if (!live) open();
                if (!live) break;
                int e = (int)E.size() - 1;
                s64 body = (s64)o.size * (o.size - 1) / 2;
                switch (o.kind) {
                    case 0: case 1: // asynchronous burst, synchronous sequence
                        for (s64 i = 0; i < o.n && live; i++) {
                            std::string r = n.eval(strf("(write %s (list 'add%d_%d %lld (til %d)))", o.kind ? "h" : "(neg h)", c, e, (long long)next * 10000000, o.size));
                            E.back().sent.push_back(next * 10000000 + body);   // counted as sent even when the call fails: it may have arrived
                            next++;
                            if (r == "ERR") broke("sending");
                            else if (o.kind) { E.back().confirmed = E.back().sent.size(); probe(0); }
                        }
                        break;
                    case 2: { // read everything back
                        std::string r = n.eval(strf("(write h \"log%d_%d\")", c, e), nullptr, 1 << 22);
                        if (r == "ERR") { broke("reading back"); break; }
                        std::string want = "5#" + std::to_string(E.back().sent.size() + 1) + "[0";
                        for (s64 k : E.back().sent) want += " " + std::to_string(k);
                        want += "]";
                        if (r != want) violation("order", "client %d: after %zu messages on this connection the server has %.300s; expected %.300s", c, E.back().sent.size(), r.c_str(), want.c_str());
                        E.back().confirmed = E.back().sent.size();
                        break;
                    }
                    case 3: n.ok("(hclose h)"); live = false; break;
                    case 4: { // the server pushes a numbered burst while the client does not read
                        std::string r = n.eval(strf("(write (neg h) \"(do (set sz %d) (set cnt %lld) (pushn %lld 0))\")", o.size, (long long)o.n, (long long)next * 10000000));
                        if (r == "ERR") { broke("asking for pushes"); break; }
                        s64 base = next;
                        next += o.n;
                        if (o.pause) sim_sleep(o.pause * 20);
                        r = n.eval("(write h \"1\")");
                        if (r == "ERR") { broke("a request"); break; }
                        r = n.eval("got", nullptr, 1 << 22);
                        std::string want = "5#" + std::to_string(o.n + 1) + "[0";
                        for (s64 k = 0; k < o.n; k++) want += " " + std::to_string(base * 10000000 + k + body);
                        want += "]";
                        if (r != want) violation("push_order", "client %d: the server pushed %lld messages before its response, the client processed %.300s; expected %.300s", c, (long long)o.n, r.c_str(), want.c_str());
                        E.back().confirmed = E.back().sent.size();
                        n.must("(set got [0])");
                        break;
                    }
                    case 5: sim_sleep(1 * MS); break;
                }
            }
            if (live && w.chance(0)) n.ok("(hclose h)");
            if (live) {
                std::string r = n.eval("(write h \"1\")");
                if (r == "ERR") broke("the last request");
                else E.back().confirmed = E.back().sent.size();
                n.ok("(hclose h)");
            }
        }));
    }
    int ht = hold_n ? sim_spawn(51, [&]() {
        for (auto &h : holds) {     // a link stalls for a while
            sim_sleep(h.first);
            auto v = all_conns();
            if (v.empty()) continue;
            SockP s = v[(size_t)h.second % v.size()];
            fault(FK_NET_STALL);
            net_hold(s, true);
            sim_sleep(h.second);
            net_hold(s, false);
        }
    }) : -1;
    if (crash) {
        sim_sleep(kill_at);
        if (!sim_thread_done(thr[0])) {
            fault(FK_CRASH);
            note("client 0 dies");
            io_node_died(2);
            sim_kill_node(2);
        }
    }
    for (int c = 0; c < nc; c++)
        if (!wait_thr_for(thr[(size_t)c], 900 * SEC)) violation("stuck", "client %d did not finish within 900 s of simulated time", c);
    if (ht >= 0) wait_thr(ht);
    g_nf.on = false;
    if (srv.done) violation("server_gone", "the server ended");
    int t = sim_spawn(50, [&]() {
        Raw r;
        if (!r.open(5101)) violation("server_gone", "the server does not accept a connection at the end");
        std::string p;
        std::vector<s64> v;
        for (int c = 0; c < nc; c++)
            for (size_t e = 0; e < ep[(size_t)c].size(); e++) {
                Epoch &E = ep[(size_t)c][e];
                if (!r.ask(strf("log%d_%zu", c, e), &p) || !Raw::ints(p, &v) || v.empty()) violation("server_gone", "the server does not answer once faults have stopped");
                v.erase(v.begin());
                bool dead = crash && c == 0 && e + 1 == ep[(size_t)c].size();
                // a dying client may have sent one more message than it lived to record
                size_t lim = std::min(v.size(), E.sent.size());
                for (size_t i = 0; i < lim; i++)
                    if (v[i] != E.sent[i]) violation("order", "client %d, connection %zu: message %zu the server processed is %lld, sent was %lld", c, e, i, (long long)v[i], (long long)E.sent[i]);
                if (v.size() > E.sent.size() + (dead ? 1 : 0)) violation("duplicate", "client %d, connection %zu: %zu messages were sent but the server processed %zu", c, e, E.sent.size(), v.size());
                if (v.size() < E.confirmed) violation("lost", "client %d, connection %zu: %zu messages were acknowledged but the server processed %zu", c, e, E.confirmed, v.size());
                probe(2);
            }
        r.close();
    });
    if (!wait_thr_for(t, 200 * SEC)) violation("stuck", "the server does not answer once faults have stopped");
}
// ================================================================== C08
namespace c08 {
struct Piece { std::string bytes; s64 pause; };
struct Adv { std::vector<Piece> pieces; int end; bool handshake; int expect; std::string what; bool keep; s64 linger; };
static std::string mutate(Rng &w, std::string s) {
    int m = (int)w.range(1, 4);
    for (int i = 0; i < m; i++) {
        size_t at = s.empty() ? 0 : w.below(s.size());
        if (w.chance(0.5)) at = std::min<size_t>(at, w.below(24));
        switch (w.below(7)) {
            case 0: if (!s.empty()) s[at % s.size()] = (char)w.below(256); break;
            case 1: if (!s.empty()) s[at % s.size()] ^= (char)(1 << w.below(8)); break;
            case 2: s.insert(std::min(at, s.size()), 1, (char)w.below(256)); break;
            case 3: if (!s.empty()) s.erase(at % s.size(), 1); break;
            case 4: s = s.substr(0, at); break;
            case 5: if (!s.empty()) s[at % s.size()] = (char)w.pick(std::vector<int>{0, 1, 5, 6, 12, 98, 99, 100, 101, 102, 103, 126, 127, 128, 251, 250, 244, 255, 20, 75, 77, 71}); break;
            case 6: { u64 v = w.pick(std::vector<u64>{0, 1, ~0ull, 1ull << 62, 1ull << 31, 1ull << 40, 0x7fffffffffffffffull, 0x8000000000000000ull, 1000000000ull, 255});
                      size_t p = at; if (s.size() >= 10 && w.chance(0.7)) p = 2; for (size_t j = 0; j < 8 && p + j < s.size(); j++) s[p + j] = (char)(v >> (8 * j)); break; }
        }
    }
    return s;
}
}
SCENARIO(C08, "a peer sending anything at all harms neither the server nor the other connections") {
    using namespace c08;
    policy_io();
    int na = (int)w.range(1, 4), rounds = 4;
    int per = (int)w.range(2, 8);
    describe("peers=%d scripts=%d", na, per);
    benign_net(w);
    g_nf.p_delay = std::min(g_nf.p_delay, 0.1);
    Server srv;
    auto defs = base_defs;
    defs.push_back("(set n 0)");
    defs.push_back("(set bump (fn [k] (set n (+ n k)) n))");
    start_server(srv, defs);
    // serialised values to start from are produced by the program itself
    static std::vector<std::string> good;
    good.clear();
    static const char *extra[] = {"(fn [x y] (+ x y))", "(list (fn [x y] (+ x y)) 1 2)", "(list (fn [a] (do (let b (+ a 1)) (list a b))) [1 2 3])", "(list + 1 2)", "(list til 10)", "(list 'echo \"abc\")", "(list 'echo [1 2 3])",
        "'n", "0x12", "\"(+ 1 2)\"", "\"(list 1 2 (til 5))\"", "(table [a b] (list [1 2 3] ['x 'y 'z]))", "(dict [a b] (list 1 (list 2 \"x\")))", "(list (list (list (list 1))))", "(guid 3)", "'a'", "null", "(list 'select 1)", "2024.01.01", "(list map (fn [x] (* x 2)) [1 2 3])",
        "(list (fn [x] (map (fn [y] (+ y 1)) x)) [1 2 3])", "(list 'echo (dict [a] [1]))", "(list 'raise \"x\")", "[true false]", "(list 'if true 1 2)", "(list 'select {s: (sum v) from: (table [v] (list [1 2 3]))})"};
    std::vector<std::string> ex;
    for (int i = 0; i < 6; i++) ex.push_back(payload_expr(w, (int)w.range(0, 1)));
    on_node(1, [&]() {
        Node n(1);
        n.create({"-c", "1"});
        auto add = [&](const std::string &e) {
            void *v = n.a->eval(e.c_str());
            void *b = n.a->ser(v);
            if (n.a->type(b) == 2 && n.a->len(b) > 16) good.push_back(std::string((const char *)n.a->raw(b) + 16, (size_t)n.a->len(b) - 16));
            n.a->drop(b);
            n.a->drop(v);
        };
        for (auto e : extra) add(e);
        for (auto &e : ex) add(e);
    });
    std::vector<std::vector<Adv>> plan((size_t)na);
    for (auto &v : plan)
        for (int i = 0; i < per; i++) {
            Adv a;
            a.handshake = true;
            a.expect = 0;
            a.end = (int)w.below(4);
            a.linger = w.chance(0.3) ? w.range(1, 20) * MS : 0;
            std::string b;
            int k = (int)w.below(12);
            a.what = strf("script %d", k);
            auto val = [&]() { return w.pick(good); };
            switch (k) {
                case 0: a.handshake = false; break;                                                   // nothing at all
                case 1: a.handshake = false; b = std::string((size_t)w.range(1, 3000), (char)w.range(1, 255)); break;   // no end of handshake
                case 2: a.handshake = false; b = std::string("user:password\x01\0", 15) + Raw::frame(val(), 1); break;   // no wait for the answer
                case 3: for (int j = (int)w.range(1, 40); j > 0; j--) b += (char)w.below(256); break;  // noise instead of a header
                case 4: { std::string f = Raw::frame(val(), (int)w.below(4)); u64 sz = w.pick(std::vector<u64>{0, 1, ~0ull, 1ull << 63, 1000000000ull, 1000000001ull, 1ull << 40, 5, 100000}); memcpy(&f[8], &sz, 8); b = f; break; }
                case 5: b = mutate(w, Raw::frame(val(), (int)w.below(3))); break;
                case 6: b = Raw::frame(val(), (int)w.below(3)); b = b.substr(0, w.below(b.size())); break;  // cut off
                case 7: a.expect = 1; b = Raw::frame(mutate(w, val()), 1); break;                      // well framed, contents damaged
                case 8: a.expect = 1; b = Raw::frame(mutate(w, val()), 0); break;
                case 9: for (int j = (int)w.range(1, 6); j > 0; j--) b += Raw::frame(w.chance(0.5) ? mutate(w, val()) : val(), (int)w.below(3)); a.expect = 1; break;
                case 10: { std::string d = Raw::i64(1); int depth = (int)w.pick(std::vector<int>{10, 900, 1100, 5000}); for (int j = 0; j < depth; j++) d = Raw::list({d}); b = Raw::frame(d, (int)w.below(2)); break; }
                case 11: b = Raw::frame(val(), (int)w.range(3, 255)); a.expect = 1; break;             // unknown message type
            }
            if (w.chance(0.3)) a.expect = 0;
            int cuts = w.chance(0.5) ? 0 : (int)w.range(1, 4);
            std::vector<size_t> at;
            for (int j = 0; j < cuts && !b.empty(); j++) at.push_back(w.below(b.size()));
            at.push_back(b.size());
            std::sort(at.begin(), at.end());
            size_t p = 0;
            for (size_t c : at) { a.pieces.push_back({b.substr(p, c - p), w.chance(0.5) ? (s64)w.range(1, 3000) * 1000 : 0}); p = c; }
            v.push_back(a);
        }
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    bool stop = false, hold = false, held = false;
    s64 count = 0;
    std::vector<std::pair<std::string, s64>> reqs;
    std::vector<std::string> exprs;   // few, all used once before the measurements begin (names are interned for good)
    for (int i = 0; i < 6; i++) exprs.push_back(payload_expr(w, (int)w.range(0, 1)));
    for (int i = 0; i < 200; i++) reqs.push_back({w.pick(exprs), w.range(1, 3000) * 1000});
    int cl = spawn_node(2, [&]() {
        Node n(2);
        n.create({"-c", "1"});
        if (conn_open(n, 5101, 3).empty()) violation("open_failed", "a well-behaved client can not connect");
        for (auto &e : exprs) n.eval("(write h " + esc(e) + ")", nullptr, 1 << 22);
        g_nf.on = true;
        for (auto &q : reqs) {
            while (hold && !stop) { held = true; sim_sleep(5 * MS); }
            held = false;
            if (stop) break;
            s64 t0 = S.now;
            std::string got = n.eval("(write h " + esc(q.first) + ")", nullptr, 1 << 22);
            s64 dt = S.now - t0;
            std::string want = n.eval(q.first, nullptr, 1 << 22);
            if (got != want && !same_value(got, want)) violation("other_disturbed", "a well-behaved client asks %.100s while other peers misbehave and gets %.200s; expected %.200s", q.first.c_str(), got.c_str(), want.c_str());
            if (dt > 3 * SEC) violation("other_delayed", "a well-behaved client waited %.1f s of simulated time for %.100s", (double)dt / 1e9, q.first.c_str());
            count++;
            t0 = S.now;
            got = n.eval("(write h \"(bump 1)\")");
            if (got == "ERR") note("after %lld us; again: %s; server: %.300s", (long long)(S.now - t0) / 1000, n.fmt("(write h \"(bump 1)\")").c_str(), g_out[0].c_str());
            if (got != std::to_string(count)) violation("other_disturbed", "the server's own count is %s after %lld requests", got.c_str(), (long long)count);
            probe(0);
            sim_sleep(q.second);
        }
        while (!stop) { held = true; sim_sleep(5 * MS); }
        n.ok("(hclose h)");
    });
    sim_wait([&]() { return g_nf.on; }, S.now + 100 * SEC, "client start");
    auto settle = [&]() { sim_sleep(200 * MS); };
    settle();
    int fd0 = node_fd_count(0);
    s64 live[8] = {0};
    for (int q = 0; q < rounds; q++) {
        u64 mark = leak_mark();
        std::vector<int> thr;
        for (int i = 0; i < na; i++)
            thr.push_back(sim_spawn(40 + i, [&, i, q]() {
                for (auto &a : plan[(size_t)i]) {
                    if (!a.keep) continue;
                    Raw r;
                    if (!r.open(5101, a.handshake)) {
                        if (r.fd < 0 || !r.eof) violation("not_accepting", "the server does not take a new connection (round %d, peer %d)", q, i);
                        r.close();
                        continue;
                    }
                    fault(FK_NET_MALFORMED);
                    {
                        std::string hex;
                        for (auto &p : a.pieces) { for (size_t j = 0; j < p.bytes.size() && j < (getenv("LONGNOTE") ? 1000 : 90); j++) { u8 ch = (u8)p.bytes[j]; hex += ch > 32 && ch < 127 && ch != '\\' ? std::string(1, (char)ch) : strf("\\%02x", ch); } hex += " | "; }
                        note("round %d peer %d: %s: %s", q, i, a.what.c_str(), hex.c_str());
                    }
                    bool ok = true;
                    for (auto &p : a.pieces) { if (p.pause) sim_sleep(p.pause); if (!r.send(p.bytes)) { ok = false; break; } }
                    if (a.linger) sim_sleep(a.linger);
                    if (a.expect && ok) {
                        // well framed: the stream is in step, so that a good request is answered (or the connection has been closed)
                        std::string p;
                        std::vector<s64> v;
                        if (r.send(Raw::frame(Raw::str("(+ 20000 222)"), 1))) {
                            int t;
                            bool got = false;
                            while (r.recv(&t, &p, 20 * SEC)) if (t == 2 && Raw::ints(p, &v) && v.size() == 1 && v[0] == 20222) { got = true; break; }
                            if (!got && !r.eof) violation("peer_not_answered", "%s: after a well framed message with damaged contents the server neither answers the next request nor closes the connection", a.what.c_str());
                            probe(got ? 1 : 2);
                        }
                    }
                    switch (a.end) {
                        case 0: r.close(); break;
                        case 1: if (SockP s = hp_sock(r.fd)) s->linger0 = true; r.close(); break;
                        case 2: simc_shutdown(r.fd, 1); hp_recv(r.fd, 100000, 2 * SEC, nullptr); r.close(); break;
                        case 3: sim_sleep(2 * MS); r.close(); break;
                    }
                }
            }));
        for (int t : thr) if (!wait_thr_for(t, 600 * SEC)) violation("stuck", "a peer is still waiting after 600 s of simulated time");
        settle();
        if (srv.done) violation("server_gone", "the server ended because of what a peer sent");
        int fd1 = node_fd_count(0);
        if (fd1 != fd0) violation("descriptors", "round %d: all misbehaving peers are gone but the server holds %d descriptors, before them %d:%s", q, fd1, fd0, node_fd_desc(0).c_str());
        // between two requests of the client, so that nothing is in flight
        hold = true;
        if (sim_wait([&]() { return held; }, S.now + 100 * SEC, "client between requests")) violation("stuck", "the well-behaved client is stuck");
        live[q] = g_heap[0].live;
        if (q == 3 && live[3] > live[2] && live[2] > live[1]) {
            leak_report(mark);
            violation("memory_left", "repeating what the peers sent leaves %lld, then %lld more allocations in the server", (long long)(live[2] - live[1]), (long long)(live[3] - live[2]));
        }
        hold = false;
    }
    stop = true;
    if (!wait_thr_for(cl, 100 * SEC)) violation("stuck", "the well-behaved client is stuck");
    g_nf.on = false;
    int t = sim_spawn(50, [&]() {
        Raw r;
        std::string p;
        std::vector<s64> v;
        if (!r.open(5101) || !r.ask("n", &p) || !Raw::ints(p, &v)) violation("server_gone", "the server does not answer at the end");
        if (v[0] != count) violation("count", "the server counted %lld requests of the well-behaved client, it made %lld", (long long)v[0], (long long)count);
        r.close();
    });
    if (!wait_thr_for(t, 100 * SEC)) violation("stuck", "the server does not answer once the peers are gone");
}
