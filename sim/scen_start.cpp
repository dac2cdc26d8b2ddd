// The whole program from main(): how it starts, and what it does with source given as file, pipe or at a terminal.
#include "ipcx.h"
#include <cerrno>
#include <csignal>
#include <netinet/in.h>
#include <sys/socket.h>
namespace start {
struct Prog {
    std::string src;                        // text
    std::vector<std::string> items;         // its top-level expressions (for the terminal)
    std::vector<std::string> want;          // what is printed when everything is executed
    std::vector<size_t> upto;               // items[i] done: so much of want
    int status = 0;
};
// text between at signs that the program prints: @number:text@
struct Marks {
    std::vector<std::string> got;
    std::string cur;
    bool in = false;
    void feed(const char *p, size_t n) {
        for (size_t i = 0; i < n; i++) {
            if (p[i] == '@') {
                if (in && cur.find(':') != std::string::npos && cur.size() && cur[0] >= '0' && cur[0] <= '9') { got.push_back(cur); cur.clear(); in = false; }
                else { in = true; cur.clear(); }
            } else if (in) {
                cur += p[i];
                if (cur.size() == 1 && !(p[i] >= '0' && p[i] <= '9')) in = false;
            }
        }
    }
};
static std::string blank(Rng &w, bool tty) {
    switch (w.below(tty ? 5 : 7)) {
        case 0: return "  ";
        case 1: return tty ? "   " : "\t";
        case 2: return "\n  ";
        case 3: return " ";
        case 4: return tty ? " ; a comment [with] (brackets) in it\n" : "\n\n";
        case 5: return " ; a comment (with [ things \" in it\n";
        default: return "\r\n";
    }
}
static std::string word(Rng &w, size_t n, bool tty, size_t *len) {
    static const char *pool[] = {"a", "b", "Z", " ", "(", ")", "[", "]", "{", "}", ";", "'", "0", "9", "\\n", "\\\"", "\xc3\xa9", "\xe2\x82\xac", "#", "`", ",", "\n"};
    std::string s;
    for (size_t i = 0; i < n; i++) {
        const char *p = pool[w.chance(0.05) ? 21 : w.below(tty ? 14 : 21)];
        s += p;
        *len += p[0] == '\\' ? 1 : strlen(p);
    }
    return s;
}
// a program whose effects depend on every expression and on their order
static Prog program(Rng &w, bool tty, int size, int *no, bool may_fail, std::vector<s64> &var) {
    Prog p;
    int n = size == 0 ? (int)w.range(0, 6) : size == 1 ? (int)w.range(5, 60) : (int)w.range(100, 400);
    int fail_at = may_fail && n && w.chance(0.2) ? (int)w.below((u64)n) : -1;
    bool failed = false;
    for (int i = 0; i < n; i++) {
        std::string s;
        int v = (int)w.below(var.size()), k = (*no)++;
        bool printed = false, keep = op_keep(), failed0 = failed;
        std::vector<s64> var0 = var;
        int status0 = p.status;
        std::string text;
        if (i == fail_at) {
            static const char *bad[] = {"(raise \"wanted\")", "(+ 'a 1)", "(nosuchname 3)", "(at [1 2] 'x)", "(til -5)"};
            s = bad[w.below(3)];
            if (!tty) failed = true;
            p.status = 1;
        } else switch (w.below(9)) {
            case 0: { s64 c = w.range(-1000, 1000); s = strf("(set v%d %lld)", v, (long long)c); if (!failed) var[(size_t)v] = c; break; }
            case 1: { int u = (int)w.below(var.size()); s64 c = w.range(0, 1000); s = strf("(set v%d (+ v%d %lld))", v, u, (long long)c); if (!failed) var[(size_t)v] = var[(size_t)u] + c; break; }
            case 2: case 3: s = strf("(println \"@%%:%%@\"%s%d v%d)", blank(w, tty).c_str(), k, v); text = std::to_string(var[(size_t)v]); printed = true; break;
            case 4: {   // text; what println prints is shortened, so of a long one only the length is printed
                bool big = size == 2 && !tty && w.chance(0.1);
                size_t m = 0;
                std::string t = word(w, big ? (size_t)w.range(0, 6000) : (size_t)w.range(0, 12), tty, &m);
                if (big || w.chance(0.3)) { s = strf("(println \"@%%:%%@\" %d (count \"%s\"))", k, t.c_str()); text = std::to_string(m); }
                else { s = strf("(println \"@%%:%%@\" %d \"%s\")", k, t.c_str()); text.clear(); for (char c : t) { if (c == '\n') text += "\\n"; else text += c; } }
                printed = true;
                break;
            }
            case 5: {   // many numbers
                int m = (int)w.range(1, size == 2 && !tty && w.chance(0.2) ? 3000 : 60);
                s64 sum = 0;
                s = strf("(println \"@%%:%%@\" %d (sum [", k);
                for (int j = 0; j < m; j++) { s64 c = w.range(0, 100000); sum += c; s += (j ? (w.chance(0.1) ? blank(w, tty) : " ") : "") + std::to_string(c); }
                s += "]))";
                text = std::to_string(sum);
                printed = true;
                break;
            }
            case 6: {   // a function over several lines
                s64 c = w.range(1, 99), a = w.range(0, 9);
                s = strf("(set f%d (fn [x y]%s(+ x%s(* y %lld))))", k, blank(w, tty).c_str(), blank(w, tty).c_str(), (long long)c);
                s += strf("%s(println \"@%%:%%@\" %d (f%d v%d %lld))", tty ? " " : blank(w, tty).c_str(), k, k, v, (long long)a);
                s = "(do " + s + ")";
                text = std::to_string(var[(size_t)v] + a * c);
                printed = true;
                break;
            }
            case 7: {   // nested
                int d = (int)w.range(1, size == 2 ? 60 : 20);
                s = strf("(set v%d ", v);
                for (int j = 0; j < d; j++) s += "(+ 1" + (w.chance(0.2) ? blank(w, tty) : " ");
                s += strf("v%d", v) + std::string((size_t)d, ')') + ")";
                if (!failed) var[(size_t)v] += d;
                break;
            }
            default: s = strf("(if (> v%d 0)%s(println \"@%%:%%@\" %d \"pos\")%s(println \"@%%:%%@\" %d \"neg\"))", v, blank(w, tty).c_str(), k, blank(w, tty).c_str(), k); text = var[(size_t)v] > 0 ? "pos" : "neg"; printed = true;
        }
        if (!keep) { var = var0; failed = failed0; p.status = status0; continue; }
        if (printed && !failed) p.want.push_back(std::to_string(k) + ":" + text);
        p.items.push_back(s);
        p.upto.push_back(p.want.size());
        p.src += s;
        if (i + 1 < n || w.chance(0.7)) p.src += w.chance(0.8) ? "\n" : w.chance(0.5) ? "\n" + blank(w, tty) : " ";
    }
    return p;
}
static std::vector<int> pieces(Rng &w, size_t len) {
    std::vector<int> v;
    int how = (int)w.below(5);
    for (size_t at = 0; at < len && v.size() < 20000;) {
        if (w.chance(0.02)) { v.push_back(-EINTR); continue; }
        int k = how == 0 ? (int)len : how == 1 ? (int)w.range(1, 7) : how == 2 ? (int)w.range(1, 600) : how == 3 ? 4096 : (int)w.range(1, 9000);
        v.push_back(k);
        at += (size_t)k;
    }
    return v;
}
static std::string diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return strf("at %zu: \"%s\" for \"%s\"", i, a.substr(i, 40).c_str(), b.substr(i, 40).c_str());
}
static std::string show(const std::vector<std::string> &v, size_t i) { return i < v.size() ? "\"" + v[i].substr(0, 60) + "\"" : "nothing more"; }
static void left_behind(int node) {
    int fd = node_fd_count(node);
    if (fd) violation("descriptors", "%d descriptors are open after the end:%s", fd, node_fd_desc(node).c_str());
    for (auto &x : S.thr) if (x->node == node && x->st != Thr::DONE && x->st != Thr::KILLED) violation("worker_left", "thread t%d still exists after the end", x->id);
    if (g_heap[node].live) { leak_report(node); violation("memory_left", "%lld allocations are live after the end", (long long)g_heap[node].live); }
    u64 maps = 0, len = 0;
    for (auto &m : g_maps) if (m.second.node == node) { maps++; len += m.second.len; }
    if (maps) violation("memory_left", "%llu mappings (%llu bytes) are left after the end", (unsigned long long)maps, (unsigned long long)len);
}
struct Proc {
    int node, thr = -1, rc = -1;
    bool done = false, exited = false;
    std::string out;
    std::vector<std::string> args;
    std::vector<char *> argv;
    void start() {
        args.insert(args.begin(), "rayforce");
        for (auto &a : args) argv.push_back((char *)a.c_str());
        argv.push_back(nullptr);
        thr = spawn_node(node, [this]() { rc = node_api[node]->app_main((int)args.size(), argv.data()); done = true; });
    }
};
}
SCENARIO(C24, "source is executed once, whole and in order, however it comes") {
    using namespace start;
    policy_io();
    int mode = (int)w.below(6);           // 0 pipe, 1 file, 2 file with other options, 3 file and then a pipe, 4 a file that loads others, 5 terminal
    bool tty = mode == 5;
    int size = (int)w.below(3), no = 0, workers = w.chance(0.2) ? (int)w.range(2, 3) : 1;
    if (tty && size == 2) size = 1;
    std::vector<s64> var(5, 0);
    std::string pre = "(set v0 0) (set v1 0) (set v2 0) (set v3 0) (set v4 0)\n";
    std::vector<Prog> part;
    int np = mode == 3 ? 2 : mode == 4 ? (int)w.range(1, 4) : 1;
    bool bad_text = !tty && w.chance(0.12), io_error = !tty && mode != 3 && w.chance(0.1);
    bool may_fail = !bad_text && !io_error && mode < 3;
    for (int i = 0; i < np; i++) part.push_back(program(w, tty, size, &no, may_fail || tty, var));
    part[0].src = pre + part[0].src;
    part[0].items.insert(part[0].items.begin(), pre.substr(0, pre.size() - 1));
    part[0].upto.insert(part[0].upto.begin(), 0);
    // how it ends
    int status = part[0].status, code = (int)w.range(0, 60);
    bool ex = tty || (w.chance(0.3) && !part[0].status && !bad_text && mode < 3);
    if (tty) status = 0;
    if (ex) { part.back().src += strf(" (exit %d)", code); status = code; }
    std::vector<std::string> want;
    for (auto &p : part) want.insert(want.end(), p.want.begin(), p.want.end());
    if (bad_text) {
        static const char *tail[] = {"\n(println \"nothing\"", "\n(set z \"never closed)", "\n(+ 1 [2 3)", "\n)"};
        size_t q = part.size() - 1;
        part[q].src += tail[w.below(4)];
        part[q].want.clear();
        want.clear();
        for (auto &p : part) want.insert(want.end(), p.want.begin(), p.want.end());
        status = 1;
        if (mode == 4) bad_text = true;
    }
    std::vector<std::string> args, names;
    Marks mk;
    Proc pr;
    pr.node = 0;
    auto &in = g_stdin[0];
    std::string opts_c = std::to_string(workers);
    if (mode == 0) in.data = part[0].src;
    if (mode == 1 || mode == 2 || mode == 3) { fs_create("main.rfl", part[0].src); args = {"-f", "main.rfl"}; names = {"main.rfl"}; }
    if (mode == 3) { args = {"main.rfl", "-i"}; in.data = part[1].src; }
    if (mode == 4) {
        std::string s;
        for (int i = 0; i < np; i++) {
            fs_create(strf("part%d.rfl", i), part[(size_t)i].src);
            names.push_back(strf("part%d.rfl", i));
            s += strf("(load \"part%d.rfl\")", i) + blank(w, false);
        }
        if (w.chance(0.5)) { fs_create("main.rfl", s); args = {"main.rfl"}; names.push_back("main.rfl"); }
        else in.data = s;
    }
    // a file part that fails ends the loading of the rest
    if (mode == 2) args = w.chance(0.5) ? std::vector<std::string>{"main.rfl"} : std::vector<std::string>{"-file", "main.rfl"};
    args.insert(w.chance(0.5) ? args.begin() : args.end(), {"-c", opts_c});
    if (mode == 2 && w.chance(0.5)) { args.push_back("--"); args.push_back("-user"); args.push_back("3"); }
    if (!tty) in.plan = pieces(w, in.data.size());
    bool err_in = false;
    if (io_error) {
        if (mode == 0) { in.plan.insert(in.plan.begin() + (long)w.below(in.plan.size() + 1), -EIO); err_in = true; }
        else { g_ff.p_eio_r = g_ff.p_open = g_ff.p_stat = 0.3; g_ff.path_filter = [names](const std::string &p) { for (auto &n : names) if (p.size() >= n.size() && p.compare(p.size() - n.size(), n.size(), n) == 0) return true; return false; }; }
    }
    g_ff.p_short_read = w.pick(std::vector<double>{0, 0.3, 0.8});
    g_ff.p_eintr = w.pick(std::vector<double>{0, 0.1, 0.3});
    g_ff.on = mode != 0 && !tty;
    in.tty = tty;
    describe(" mode=%d size=%d bytes=%zu marks=%zu%s%s%s", mode, size, in.data.size() + (names.empty() ? 0 : part[0].src.size()), want.size(), bad_text ? " malformed" : "", io_error ? " read errors" : "", ex ? " exit" : "");
    std::string all;
    g_out_hook = [&](int node, const char *p, size_t n) { if (node == 0) { mk.feed(p, n); all.append(p, n); if (all.size() > 20000) all.erase(0, 10000); } };
    S.on_exit = [&](int node, int c) { if (node != 0) return false; pr.exited = pr.done = true; pr.rc = c; return true; };
    pr.args = args;
    pr.start();
    if (tty) {
        // typed at a terminal, as it becomes ready for it
        std::string typed;
        for (auto &s : part[0].items) typed += s + "\n";
        typed += w.chance(0.5) ? strf("(exit %d)\n", code) : strf(":q %d\n", code);
        size_t at = 0;
        int how = (int)w.below(3);
        while (at < typed.size() && !pr.done) {
            size_t k = how == 0 ? typed.size() : how == 1 ? (size_t)w.range(1, 12) : (size_t)w.range(1, 300);
            k = std::min(k, typed.size() - at);
            in.data.append(typed, at, k);
            at += k;
            tty_ready(0);
            if (how) sim_sleep(w.range(0, 3000) * 1000);
        }
    }
    if (sim_wait([&]() { return pr.done; }, S.now + 600 * SEC, "end of the program")) violation("does_not_end", "the program has not ended after 600 s; it has read %zu of %zu and printed %zu of %zu: %s", in.pos, in.data.size(), mk.got.size(), want.size(), all.substr(all.size() > 300 ? all.size() - 300 : 0).c_str());
    if (pr.exited) violation("exit_called", "the program ended in the middle with %d: %s", pr.rc, all.substr(all.size() > 300 ? all.size() - 300 : 0).c_str());
    if (!wait_thr_for(pr.thr, 10 * SEC)) violation("does_not_end", "the main thread does not end");
    bool failing = err_in || (io_error && mode != 0 && pr.rc != 0);
    size_t m = std::min(mk.got.size(), want.size());
    for (size_t i = 0; i < m; i++) if (mk.got[i] != want[i]) violation("executed_otherwise", "output %zu differs %s", i, diff(mk.got[i], want[i]).c_str());
    if (mk.got.size() > want.size()) violation("executed_more", "output goes on with %s; %zu were expected", show(mk.got, want.size()).c_str(), want.size());
    if (failing) {
        if (pr.rc == 0) violation("status", "reading failed and the status is 0");
        probe(3);
    } else {
        if (mk.got.size() < want.size()) violation("executed_less", "%zu of %zu outputs; the next should be %s, status %d; the last output: %s", mk.got.size(), want.size(), show(want, mk.got.size()).c_str(), pr.rc, all.substr(all.size() > 200 ? all.size() - 200 : 0).c_str());
        if (pr.rc != status) violation("status", "the status is %d, expected %d", pr.rc, status);
        probe(tty ? 2 : mode == 0 ? 0 : 1);
    }
    g_ff.on = false;
    left_behind(0);
    g_out_hook = nullptr;
}
SCENARIO(C23, "a process starts as it is told to, or ends and says so") {
    using namespace start;
    policy_io();
    static const char *calls[] = {"mmap", "mmap", "mmap", "pthread_create", "pthread_create", "mprotect", "epoll_create1", "eventfd", "epoll_ctl", "socket", "bind", "listen", "setsockopt", "fcntl", "flock", "tcgetattr", "tcsetattr", "pthread_setaffinity"};
    int workers = (int)w.range(1, 4), port = 5000 + (int)w.below(900), form = (int)w.below(4);
    bool script = w.chance(0.5), taken = w.chance(0.06), bad_port = !taken && w.chance(0.06), all_of = w.chance(0.1);
    int nf = w.chance(0.15) ? 0 : (int)w.range(1, 2), code = (int)w.range(0, 50), marks = (int)w.range(1, 30);
    std::map<std::string, std::set<int>> plan;
    std::string told;
    for (int i = 0; i < nf; i++) {
        const char *c = calls[w.below(sizeof calls / sizeof *calls)];
        int max = !strcmp(c, "mmap") ? 12 + 6 * workers : !strcmp(c, "pthread_create") ? 4 : 3;
        int n = (int)w.below((u64)max);
        bool keep = op_keep();
        if (!keep) continue;
        for (int j = n; j < n + (all_of ? 1000 : 1); j++) plan[c].insert(j);
        told += strf(" %s#%d%s", c, n, all_of ? "..." : "");
    }
    describe(" workers=%d script=%d form=%d%s%s faults:%s", workers, script, form, taken ? " port taken" : "", bad_port ? " bad port" : "", told.c_str());
    std::string src;
    for (int i = 0; i < marks; i++) src += strf("(println \"@%%:%%@\" %d \"s\")\n", i);
    src += "(set known 12345)\n";
    bool user = w.chance(0.4), bad_args = !taken && !bad_port && w.chance(0.04);
    std::string uval = w.pick(std::vector<std::string>{"7", "text", "-c", "a b", "start.rfl", ""});
    std::vector<std::string> args = {w.chance(0.3) ? "-cores" : "-c", std::to_string(workers)}, pa = {form & 1 ? "-port" : "-p", std::to_string(port)};
    if (bad_port) pa[1] = w.pick(std::vector<std::string>{"abc", "70000", "-7", "65536", "99999999999999999999", "12x"});
    if (form & 2) args.insert(args.begin(), pa.begin(), pa.end()); else args.insert(args.end(), pa.begin(), pa.end());
    if (script) { fs_create("start.rfl", src); args.push_back("-i"); args.push_back("start.rfl"); }
    if (bad_args) {
        static const char *no[] = {"-unknown", "--port", "-", "-f", "-p", "extra.rfl"};
        const char *x = no[w.below(6)];
        if (!strcmp(x, "extra.rfl")) { args.push_back(x); args.push_back(x); } else args.push_back(x);
    } else if (user) {
        args.push_back("--");
        for (auto x : {"-user", uval.c_str(), "-c", "9", "-p", "1", "-i", "no"}) args.push_back(x);
    }
    g_stdin[0].tty = true;
    Proc other;
    other.node = 1;
    if (taken && w.chance(0.6)) {      // by a process of the same kind
        g_stdin[1].tty = true;
        other.args = {"-p", std::to_string(port), "-c", "1"};
        other.start();
    } else if (taken) sim_spawn(44, [&]() {
        int ls = simc_socket(AF_INET, SOCK_STREAM, 0), one = 1;
        struct sockaddr_in sa;
        memset(&sa, 0, sizeof sa);
        sa.sin_family = AF_INET;
        sa.sin_port = htons((unsigned short)port);
        simc_setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        simc_bind(ls, &sa, sizeof sa);
        simc_listen(ls, 5);
        sim_sleep(100000 * SEC);
    });
    if (taken && sim_wait([&]() { return net_listening(port); }, S.now + SEC, "other server")) violation("setup_failed", "other server");
    std::map<std::string, int> seen;
    bool serving = false, hurt = false;
    std::string last;
    S.call_fault = [&](int node, const char *call) -> int {
        if (node != 0) return 0;
        if (!strcmp(call, "epoll_wait")) { serving = true; return 0; }
        if (serving) return 0;
        int n = seen[call]++;
        auto it = plan.find(call);
        if (it == plan.end() || !it->second.count(n)) return 0;
        hurt = true;
        last = call;
        return !strcmp(call, "mmap") || !strcmp(call, "mprotect") ? ENOMEM : !strcmp(call, "pthread_create") ? EAGAIN : !strcmp(call, "bind") ? EACCES : EMFILE;
    };
    Marks mk;
    std::string all;
    g_out_hook = [&](int node, const char *p, size_t n) { if (node == 0) { mk.feed(p, n); if (all.size() < 8000) all.append(p, n); } };
    Proc pr;
    pr.node = 0;
    S.on_exit = [&](int node, int c) { if (node != 0) return false; pr.exited = pr.done = true; pr.rc = c; return true; };
    pr.args = args;
    pr.start();
    if (sim_wait([&]() { return pr.done || serving; }, S.now + 60 * SEC, "start")) violation("start_hangs", "60 s after its start the process neither serves nor has ended (failing calls:%s)", told.c_str());
    if (pr.done) {
        std::string tail = all.substr(all.size() > 200 ? all.size() - 200 : 0);
        if (!hurt && !taken && !bad_port && !bad_args) violation("does_not_start", "the process ends with %d although nothing has failed: %s", pr.rc, tail.c_str());
        if (pr.rc == 0) violation("status", "the start failed and the status is 0 (failing calls:%s): %s", told.c_str(), tail.c_str());
        if (hurt && !taken && !bad_port && !bad_args && last == "pthread_setaffinity" && plan.size() == 1) violation("does_not_start", "the process ends with %d because a thread can not be bound to a core", pr.rc);
        if (!pr.exited) {
            if (!wait_thr_for(pr.thr, 10 * SEC)) violation("start_hangs", "the main thread does not end");
            left_behind(0);
        }
        probe(pr.exited ? 2 : 3);
    } else {
        if (bad_args) violation("bad_arguments", "the process serves although its arguments are wrong: %s", args.back().c_str());
        if (bad_port) violation("bad_port", "the process serves although its port is to be %s", pa[1].c_str());
        if (taken) violation("port_taken", "the process serves although its port is taken");
        if (!net_listening(port)) violation("not_listening", "the process runs and does not listen on port %d (failing calls:%s): %s", port, told.c_str(), all.c_str());
        if (script && (int)mk.got.size() != marks) violation("script", "%zu of %d lines of the script have been printed", mk.got.size(), marks);
        int threads = 0;
        for (auto &x : S.thr) if (x->node == 0 && x->st != Thr::DONE && x->st != Thr::KILLED) threads++;
        if (!hurt && threads != workers) violation("workers", "%d executors run, %d were told", threads, workers);
        // and it does its work, with all of its workers
        int t = sim_spawn(46, [&]() {
            Raw r;
            std::string p;
            std::vector<s64> v;
            if (!r.open(port) || !r.ask("(+ 40 2)", &p) || !Raw::ints(p, &v) || v.size() != 1 || v[0] != 42) violation("no_answer", "the started process does not answer (failing calls:%s)", told.c_str());
            v.clear();
            if (!r.ask("(pmap (fn [x] (sum (til x))) [10 20 30 40 50])", &p) || p.empty()) violation("no_answer", "the started process does not answer a parallel request");
            if (script && (!r.ask("known", &p) || !Raw::ints(p, &v) || v.size() != 1 || v[0] != 12345)) violation("script", "what the script has set is not there");
            if (user && (!r.ask("(at (at (args) 'uargs) 'user)", &p) || p.find(uval) == std::string::npos)) violation("arguments", "the program does not see the argument \"%s\"", uval.c_str());
            v.clear();
            if (user && (!r.ask("(count (at (args) 'uargs))", &p) || !Raw::ints(p, &v) || v.size() != 1 || v[0] != 4)) violation("arguments", "the program does not see the user's arguments");
            r.send(Raw::frame(Raw::str(strf("(exit %d)", code)), 0));
            sim_sleep(SEC);
            r.close();
        });
        if (!wait_thr_for(t, 100 * SEC)) violation("no_answer", "the started process does not answer");
        if (sim_wait([&]() { return pr.done; }, S.now + 30 * SEC, "end")) violation("does_not_end", "the process has not ended 30 s after it was told to");
        if (pr.exited || pr.rc != code) violation("status", "the process ends with %d, it was told to end with %d", pr.rc, code);
        if (!wait_thr_for(pr.thr, 10 * SEC)) violation("does_not_end", "the main thread does not end");
        left_behind(0);
        if (net_listening(port)) violation("left_listening", "the port of the ended process still takes connections");
        probe(hurt ? 1 : 0);
    }
    S.call_fault = nullptr;
    g_out_hook = nullptr;
}
