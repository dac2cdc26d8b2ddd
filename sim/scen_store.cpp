// Stored objects: what is saved is what is loaded, failures and crashes while saving, damaged files, journals, tables kept in parts.
#include "ipcx.h"
namespace st {
// the sum of a value: enough of its text to read, and a hash of all of it
struct Sum { std::string text; u64 h = 0; bool err() const { return text == "ERR"; } bool operator==(const Sum &o) const { return h == o.h && text == o.text; } };
static Sum sum_of(Node &n, void *o) { Sum s; s.text = n.deep(o, &s.h, 500); return s; }
static Sum sum(Node &n, const std::string &src) { echo(src); void *o = n.a->eval(src.c_str()); Sum s = sum_of(n, o); n.a->drop(o); echo("= " + s.text.substr(0, 300)); return s; }
static s64 pick_n(Rng &w) { return w.chance(0.6) ? w.range(1, 40) : w.pick(std::vector<s64>{0, 1, 2, 100, 255, 256, 509, 510, 511, 512, 513, 1000, 4079, 4080, 4081, 5000, 9000}); }
static const char *setup[] = {"(set sy [aa bb cc dd ee ff gg hh])", nullptr};
static const int NKIND = 18;
static std::string texts(Rng &w, s64 n) { return strf("(take (at [a%d b%d cc dd e%d ff gg hh 0Ns] (%% (* %d (til 40)) 9)) %lld)", (int)w.below(9), (int)w.below(9), (int)w.below(30), (int)w.range(1, 8), (long long)n); }
static std::string list_expr(Rng &w, s64 n) {
    int u = (int)w.below(100);
    std::string it;
    int k = (int)w.range(1, 5);
    bool same = w.chance(0.25);
    for (int i = 0; i < k; i++)
        switch (same ? 4 : w.below(9)) {
            case 0: it += strf(" %d", u + i); break;
            case 1: it += strf(" \"text %d\"", u); break;
            case 2: it += strf(" (til %d)", (int)w.below(30)); break;
            case 3: it += strf(" 's%d", u % 11); break;
            case 4: it += strf(" (list %d \"in\" (list 'q 2.5))", u); break;
            case 5: it += " [1.5 2.5 -7.0]"; break;
            case 6: it += strf(" (take [x yy zzz] %d)", (int)w.below(6)); break;
            case 7: it += " (dict [a b] (list 1 \"z\"))"; break;
            default: it += " 2024.05.06"; break;
        }
    return strf("(take (list%s) %lld)", it.c_str(), (long long)n);
}
static std::string vec_expr(Rng &w, int kind, s64 n, bool nulls = true) {
    int u = (int)w.below(1000);
    std::string N = std::to_string(n), B = strf("(+ %d (* %d (til %s)))", u, (int)w.range(1, 9), N.c_str());
    std::string nul = w.chance(0.3) && nulls ? strf("(find (til %d) (%% %s %d))", (int)w.range(1, 50), B.c_str(), (int)w.range(10, 100)) : B;
    switch (kind) {
        case 0: return nul;
        case 1: return "(* 0.5 " + nul + ")";
        case 2: return "(as 'I32 " + nul + ")";
        case 3: return "(as 'I16 (% " + B + " 3000))";
        case 4: return "(as 'U8 (% " + B + " 200))";
        case 5: return strf("(> (%% %s 7) %d)", B.c_str(), u % 7);
        case 6: return "(+ 2024.01.01 (% " + B + " 900))";
        case 7: return "(as 'TIME " + B + ")";
        case 8: return "(as 'TIMESTAMP " + nul + ")";
        case 9: return strf("(take \"abc defgh\\\"%d\" %s)", u, N.c_str());
        case 10: return texts(w, n);
        case 11: return strf("(enum 'sy (take (at sy (%% (til 30) %d)) %s))", (int)w.range(1, 8), N.c_str());
        case 12: case 13: return list_expr(w, n);
        case 14: return "(guid " + N + ")";
        default: return B;
    }
}
static std::string table_expr(Rng &w, s64 n, bool rich) {
    static const std::vector<std::string> nm = {"a", "b", "price", "ts", "sym1", "flag", "note", "q"};
    int k = (int)w.range(1, 6);
    std::string names, cols;
    for (int i = 0; i < k; i++) {
        int kind = w.pick(rich ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 10, 10, 12, 14} : std::vector<int>{0, 1, 2, 3, 5, 6, 8, 10, 12});
        names += (i ? " " : "") + nm[(size_t)i];
        cols += " " + vec_expr(w, kind, n);
    }
    return "(table [" + names + "] (list" + cols + "))";
}
struct Obj {
    std::string path, expr;
    int kind;
    bool splayed() const { return kind >= 16; }
    bool lists() const { return kind == 12 || kind == 13; }
    std::string save(const std::string &v) const { return splayed() ? "(set-splayed \"" + path + "\" " + v + " \"db/sym\")" : "(set \"" + path + "\" " + v + ")"; }
    std::string load() const { return splayed() ? "(get-splayed \"" + path + "\" \"db/sym\")" : "(get \"" + path + "\")"; }
};
static std::string value_expr(Rng &w, int kind) {
    s64 n = pick_n(w);
    if (kind >= 15 && n == 0) n = 1;
    return kind < 15 ? vec_expr(w, kind, n) : table_expr(w, n, true);
}
static std::vector<Obj> objects(Rng &w, int k) {
    std::vector<Obj> v;
    for (int i = 0; i < k; i++) {
        Obj o;
        o.kind = (int)w.below(NKIND);
        o.path = strf("%s%d%s", w.pick(std::vector<std::string>{"db/o", "o", "db/deep/er/o"}).c_str(), i, o.splayed() ? "/" : w.chance(0.3) ? ".dat" : "");
        o.expr = value_expr(w, o.kind);
        v.push_back(o);
    }
    return v;
}
static void soft_faults(Rng &w) {
    g_ff = FsFaults();
    g_ff.p_short_read = w.pick(std::vector<double>{0, 0.2, 0.7});
    g_ff.p_short_write = w.pick(std::vector<double>{0, 0.2, 0.7});
    g_ff.p_eintr = w.pick(std::vector<double>{0, 0.1, 0.3});
}
static void hard_faults(Rng &w, double p) {
    soft_faults(w);
    auto P = [&]() { return w.chance(0.5) ? p : 0; };
    g_ff.p_eio_r = P();
    g_ff.p_eio_w = P();
    g_ff.p_enospc = P();
    g_ff.p_open = P();
    g_ff.p_mmap = P();
    g_ff.p_close = P();
    g_ff.p_unlink = P();
    g_ff.p_mkdir = P();
    g_ff.p_stat = P();
    g_ff.p_readdir = P();
}
static int file_maps(int node) { int c = 0; for (auto &m : g_maps) if (m.second.node == node && m.second.kind) c++; return c; }
// the text of a around where it first differs from b
static std::string from(const Sum &a, const Sum &b) {
    size_t i = 0;
    while (i < a.text.size() && i < b.text.size() && a.text[i] == b.text[i]) i++;
    size_t s = a.text.rfind('#', i);
    s = s == std::string::npos || s < 3 ? 0 : s - 3;
    return (s ? "..." : "") + a.text.substr(s, 100);
}
static std::string cut(const std::string &s, size_t n = 300) { return s.size() > n ? s.substr(0, n) + "..." : s; }
}
using namespace st;
// ================================================================== C11
namespace c11 {
struct Op { int kind, o, o2; s64 a, b; bool keep; std::string expr; };
}
SCENARIO(C11, "what is saved is what is loaded") {
    using namespace c11;
    policy_io();
    int k = (int)w.range(1, 5), mode = (int)w.below(3), rounds = 4;
    std::vector<Obj> ob = objects(w, k);
    std::vector<Op> ops;
    int m = (int)w.range(3, 12);
    for (int i = 0; i < m; i++) {
        Op o;
        o.kind = w.pick(std::vector<int>{0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7});
        o.o = (int)w.below((u64)k);
        o.o2 = (int)w.below((u64)k);
        o.a = w.range(-3, 60);
        o.b = w.range(0, 9);
        o.expr = value_expr(w, ob[(size_t)o.o].kind);
        o.keep = op_keep();
        ops.push_back(o);
    }
    if (mode == 0) g_ff = FsFaults();
    else if (mode == 1) soft_faults(w);
    else hard_faults(w, w.pick(std::vector<double>{0.003, 0.02, 0.08}));
    std::vector<std::string> seq = {"(reverse v)", "(count v)", "(distinct v)", "(at v [0])", "(first v)", "(last v)", "(list v v)", "(take v 3)", "(take v -3)", "(concat v v)", "(ser v)"};
    std::string wk = w.chance(0.3) ? "2" : "1";
    describe("objects=%d ops=%d %s workers=%s", k, m, mode == 0 ? "no faults" : mode == 1 ? "short and interrupted transfers" : "failing calls", wk.c_str());
    struct Stored { Sum v; bool any = false, has = false; };   // any: a save of it failed
    std::vector<Stored> store((size_t)k);
    bool hard = mode == 2;
    on_node(0, [&]() {
        Node n(0);
        n.create({"-c", wk});
        for (int i = 0; setup[i]; i++) n.must(setup[i]);
        auto save = [&](size_t i, const std::string &v, const Sum &s) {
            std::string src = ob[i].save(v);
            bool ok = n.ok(src);
            if (!ok && !hard) violation("save_failed", "%s failed although no call it depends on did (kind %d, %s)", cut(src).c_str(), ob[i].kind, cut(s.text, 100).c_str());
            if (ok) { store[i].v = s; store[i].any = false; store[i].has = true; probe(0); }
            else { store[i].any = true; store[i].has = true; }
        };
        auto load = [&](size_t i, const std::string &src) {   // src: evaluates to the stored object
            Sum s = sum(n, src);
            if (!store[i].has) { if (!s.err()) violation("loaded_absent", "%s gave %s, nothing was ever saved there", src.c_str(), cut(s.text).c_str()); return; }
            if (store[i].any) return;
            if (s.err()) {
                if (!hard) violation("load_failed", "%s failed although no call it depends on did; it holds %s", src.c_str(), cut(store[i].v.text).c_str());
                return;
            }
            probe(1);
            if (!(s == store[i].v)) violation("loaded_differs", "%s gave %s (%llx), what was saved is %s (%llx)", src.c_str(), cut(s.text).c_str(), (unsigned long long)s.h, cut(store[i].v.text).c_str(), (unsigned long long)store[i].v.h);
        };
        s64 live0 = 0;
        int fd0 = node_fd_count(0), mp0 = file_maps(0);
        std::map<std::string, Sum> first;
        for (int r = 0; r < rounds; r++) {
            g_ff.on = false;
            u64 mark = leak_mark();
            std::vector<Sum> held((size_t)k);
            for (size_t i = 0; i < ob.size(); i++) {
                n.must("(set v " + ob[i].expr + ")");
                g_ff.on = r > 0;
                save(i, "v", sum(n, "v"));
                g_ff.on = false;
            }
            n.must("(set v 0)");
            for (size_t q = 0; q < ops.size(); q++) {
                Op &o = ops[q];
                if (!o.keep) continue;
                size_t i = (size_t)o.o, j = (size_t)o.o2;
                g_ff.on = false;
                std::string g = strf("g%d", o.o);
                switch (o.kind) {
                    case 0: {
                        n.must("(set v " + o.expr + ")");
                        Sum s = sum(n, "v");
                        g_ff.on = r > 0;
                        save(i, "v", s);
                        g_ff.on = false;
                        n.must("(set v 0)");
                        break;
                    }
                    case 1: g_ff.on = r > 0; load(i, ob[i].load()); break;
                    case 2: {   // kept: it has to stay what it was, whatever is saved later
                        g_ff.on = r > 0;
                        bool ok = n.ok("(set " + g + " " + ob[i].load() + ")");
                        g_ff.on = false;
                        held[i] = ok ? sum(n, g) : Sum();
                        if (!ok) n.must("(set " + g + " 0)");
                        else if (!store[i].any) load(i, g);
                        break;
                    }
                    case 3: {   // what one is loaded from is saved as another one
                        if (ob[i].splayed() != ob[j].splayed() || ob[i].splayed() || !store[i].has || store[i].any) break;
                        if (ob[i].kind == 15 && ob[j].kind != 15) break;
                        if (ob[i].kind == 12 || ob[i].kind == 13) break;
                        g_ff.on = r > 0;
                        Sum s = store[i].v;
                        if (hard) { if (!n.ok("(set v " + ob[i].load() + ")")) break; save(j, "v", s); }
                        else save(j, ob[i].load(), s);
                        g_ff.on = false;
                        n.must("(set v 0)");
                        break;
                    }
                    case 4: {   // the loaded one is as good as one made in memory
                        if (!store[i].has || store[i].any || ob[i].kind >= 15) break;
                        g_ff.on = r > 0;
                        bool ok = n.ok("(set v " + ob[i].load() + ")");
                        g_ff.on = false;
                        if (!ok) break;
                        const std::string &f = seq[(size_t)(o.b % (s64)seq.size())];
                        if (ob[i].kind == 11 && (f == "(ser v)")) break;
                        if (ob[i].lists() && f == "(ser v)") break;
                        Sum a = sum(n, f);
                        if (!n.ok(ob[i].kind == 11 || ob[i].lists() ? "(set v (value v))" : "(set v (concat v (take v 0)))")) { n.must("(set v 0)"); break; }
                        Sum b = sum(n, f);
                        if (!(a == b) && !(a.err() && ob[i].kind >= 11)) violation("mapped_differs", "%s of what %s gave is %s, of the same value made in memory %s", f.c_str(), ob[i].load().c_str(), cut(a.text).c_str(), cut(b.text).c_str());
                        n.must("(set v 0)");
                        probe(2);
                        break;
                    }
                    case 5: {   // onto itself
                        if (ob[i].splayed() || ob[i].lists() || !store[i].has || store[i].any) break;
                        g_ff.on = r > 0;
                        Sum s = store[i].v;
                        if (n.ok(ob[i].save(ob[i].load()))) { store[i].v = s; probe(3); }
                        else if (!hard) violation("save_failed", "saving what is stored in %s onto itself failed", ob[i].path.c_str());
                        else store[i].any = true;
                        break;
                    }
                    case 6: {   // looking at a part leaves the rest alone
                        g_ff.on = r > 0;
                        n.ok("(count " + ob[i].load() + ")");
                        n.ok("(at " + ob[i].load() + strf(" %lld)", (long long)o.a));
                        break;
                    }
                    case 7: {   // something that can not be saved leaves what is there
                        g_ff.on = r > 0;
                        if (ob[i].splayed() || ob[i].kind == 11) break;
                        if (n.ok(ob[i].save("'notavector"))) { store[i].any = true; }
                        break;
                    }
                }
                g_ff.on = false;
                for (size_t x = 0; x < ob.size(); x++)
                    if (!held[x].text.empty()) {
                        Sum s = sum(n, strf("g%d", (int)x));
                        if (!(s == held[x])) violation("held_changed", "what was loaded from %s was %s, after a later operation (%d on %s) it is %s", ob[x].path.c_str(), cut(held[x].text).c_str(), o.kind, ob[i].path.c_str(), cut(s.text).c_str());
                    }
            }
            g_ff.on = false;
            for (size_t x = 0; x < ob.size(); x++) n.must(strf("(set g%d 0)", (int)x));
            n.must("(set v 0)");
            for (size_t x = 0; x < ob.size(); x++) load(x, ob[x].load());
            n.ok("(til 'x)");   // the places of the last error are kept until the next one
            int fd = node_fd_count(0), mp = file_maps(0);
            if (fd != fd0) violation("descriptors", "round %d left %d descriptors open, there were %d:%s", r, fd, fd0, node_fd_desc(0).c_str());
            if (mp != mp0) violation("mappings", "round %d left %d mapped files, there were %d", r, mp, mp0);
            if (r && g_heap[0].live != live0) leak_report(mark);
            if (r == 0) live0 = g_heap[0].live;
            else if (g_heap[0].live != live0) violation("memory_left", "round %d of the same operations ends with %lld live allocations, the one without faults with %lld", r, (long long)g_heap[0].live, (long long)live0);
        }
        n.a->destroy();
    });
    // another process
    on_node(1, [&]() {
        Node n(1);
        n.create({"-c", "1"});
        for (int i = 0; setup[i]; i++) n.must(setup[i]);
        for (size_t i = 0; i < ob.size(); i++) {
            if (store[i].any) continue;
            Sum s = sum(n, ob[i].load());
            if (s.err()) violation("load_failed", "in a new process %s failed; it holds %s", ob[i].load().c_str(), cut(store[i].v.text).c_str());
            if (!(s == store[i].v)) violation("loaded_differs", "in a new process %s gave %s (%llx), what was saved is %s (%llx)", ob[i].load().c_str(), cut(s.text).c_str(), (unsigned long long)s.h, cut(store[i].v.text).c_str(), (unsigned long long)store[i].v.h);
            probe(4);
        }
    });
}
// ================================================================== C13
namespace c13 {
struct Op { int o; std::string expr; bool keep, reload; };
struct Ver { Sum whole; std::map<std::string, Sum> cols; };   // a value, and its columns when it is kept in parts
static std::vector<std::string> col_names(Node &n, const std::string &t) {
    std::vector<std::string> v;
    std::string s = n.evald("(key " + t + ")");
    size_t b = s.find('[');
    std::string cur;
    for (size_t i = b == std::string::npos ? s.size() : b + 1; i < s.size(); i++) {
        if (s[i] == ' ' || s[i] == ']') { if (!cur.empty()) v.push_back(cur); cur.clear(); }
        else if (s[i] != '`') cur += s[i];
    }
    return v;
}
static Ver version(Node &n, const std::string &var, bool cols) {
    Ver r;
    r.whole = sum(n, var);
    if (cols && !r.whole.err()) for (auto &c : col_names(n, var)) r.cols[c] = sum(n, "(at " + var + " '" + c + ")");
    return r;
}
}
SCENARIO(C13, "a save replaces the object as a whole, or leaves it; nothing else changes") {
    using namespace c13;
    policy_io();
    int k = (int)w.range(2, 5), mode = (int)w.below(4);
    std::vector<Obj> ob = objects(w, k);
    std::vector<Op> ops;
    int m = (int)w.range(2, 14);
    for (int i = 0; i < m; i++) {
        Op o;
        o.o = (int)w.below((u64)k);
        o.expr = value_expr(w, ob[(size_t)o.o].kind);
        o.reload = w.chance(0.3);
        o.keep = op_keep();
        ops.push_back(o);
    }
    double pc = mode == 0 ? 0 : w.pick(std::vector<double>{0.005, 0.02, 0.06, 0.15});
    bool crash = mode >= 1;
    if (mode == 1) soft_faults(w);
    else hard_faults(w, w.pick(std::vector<double>{0.01, 0.05, 0.15}));
    FsFaults ff = g_ff;
    bool full = mode != 1 && w.chance(0.2);
    s64 room = w.chance(0.5) ? 0 : w.range(1, 9000);
    describe("objects=%d saves=%d %s%s", k, m, mode == 0 ? "failing calls" : mode == 1 ? "crashes" : "failing calls and crashes", full ? ", full disk" : "");
    std::vector<Ver> acked((size_t)k), tried((size_t)k), held((size_t)k);
    std::vector<int> doubt((size_t)k, 0);    // 1: the last save failed, 2: the process died in it
    std::set<std::string> expected;
    auto all = [&]() { std::set<std::string> s; for (auto &f : fs_list("/")) s.insert(f); return s; };
    size_t next = 0;
    bool finished = false;
    auto check = [&](Node &n, const char *when) {
        for (size_t i = 0; i < ob.size(); i++) {
            Obj &o = ob[i];
            bool ok = n.ok("(set x " + o.load() + ")");
            if (!ok) n.must("(set x 0)");
            if (!ok) {
                if (doubt[i] && (o.lists() || o.splayed())) { probe(3); continue; }
                violation("lost", "%s: %s can not be read any more%s", when, o.path.c_str(), doubt[i] == 1 ? ", its last save failed" : doubt[i] == 2 ? ", the process died while saving it" : ", nothing was wrong with it");
            }
            Ver v = version(n, "x", o.splayed());
            n.must("(set x 0)");
            if (doubt[i] && o.lists() && v.whole.text == "ERR") { probe(3); continue; }   // its two files do not fit
            if (v.whole == acked[i].whole) { probe(0); continue; }
            if (doubt[i] && v.whole == tried[i].whole && (doubt[i] == 2 || o.lists() || o.splayed())) { probe(1); continue; }
            if (doubt[i] && o.splayed()) {
                for (auto &c : v.cols) {
                    bool f = false;
                    for (Ver *u : {&acked[i], &tried[i]}) { auto it = u->cols.find(c.first); f |= it != u->cols.end() && it->second == c.second; }
                    if (!f) violation("mixed", "%s: column %s of %s is %s, it was %s and should become %s", when, c.first.c_str(), o.path.c_str(), cut(c.second.text, 120).c_str(), cut(acked[i].cols[c.first].text, 120).c_str(), cut(tried[i].cols[c.first].text, 120).c_str());
                }
                probe(2);
                continue;
            }
            violation("mixed", "%s: %s holds %s, it was %s%s", when, o.path.c_str(), cut(v.whole.text).c_str(), cut(acked[i].whole.text).c_str(), doubt[i] ? (" and should become " + cut(tried[i].whole.text)).c_str() : "");
        }
    };
    auto put = [&](Node &n, size_t i, const std::string &expr, bool faults) {   // true: saved
        n.must("(set v " + expr + ")");
        tried[i] = version(n, "v", ob[i].splayed());
        doubt[i] = 2;
        if (faults) { g_ff.on = true; if (full) g_disk_quota = (s64)fs_used() + room; }
        bool ok = n.ok(ob[i].save("v"));
        g_ff.on = false;
        n.must("(set v 0)");
        if (ok) { acked[i] = tried[i]; doubt[i] = 0; }
        else { doubt[i] = 1; if (!faults) violation("save_failed", "%s failed although nothing is wrong any more", cut(ob[i].save(expr)).c_str()); }
        return ok;
    };
    for (int node = 0; node < 5 && !finished; node++) {
        on_node(node, [&]() {
            Node n(node);
            n.create({"-c", "1"});
            for (int i = 0; setup[i]; i++) n.must(setup[i]);
            if (node == 0) {
                // everything that will be saved, without faults: the files there may be
                for (auto &o : ops) put(n, (size_t)o.o, o.expr, false);
                for (size_t i = 0; i < ob.size(); i++) put(n, i, ob[i].expr, false);
                expected = all();
            } else check(n, "after a restart");
            for (size_t i = 0; i < ob.size(); i++) {
                held[i] = Ver();
                if (n.ok(strf("(set g%d %s)", (int)i, ob[i].load().c_str()))) held[i] = version(n, strf("g%d", (int)i), false);
                else if (!doubt[i]) violation("lost", "%s can not be read", ob[i].path.c_str());
            }
            g_ff = ff;
            if (crash && node < 4) g_ff.p_crash = pc;
            while (next < ops.size()) {
                Op &o = ops[next++];
                if (!o.keep) continue;
                size_t i = (size_t)o.o;
                // what is doubtful is saved again before it is saved anew: the value before is known then
                if (doubt[i] && (ob[i].lists() || ob[i].splayed())) put(n, i, ob[i].expr, false);
                else if (doubt[i]) {
                    if (doubt[i] == 2) { Sum s = sum(n, ob[i].load()); if (s == tried[i].whole) acked[i] = tried[i]; }
                    doubt[i] = 0;
                }
                if (o.reload && n.ok(strf("(set g%d %s)", (int)i, ob[i].load().c_str()))) held[i] = version(n, strf("g%d", (int)i), false);
                put(n, i, o.expr, true);
                g_disk_quota = -1;
                check(n, doubt[i] ? "after a save that failed" : "after a save");
                for (size_t x = 0; x < ob.size(); x++) {
                    if (held[x].whole.text.empty()) continue;
                    Sum s = sum(n, strf("g%d", (int)x));
                    if (!(s == held[x].whole)) violation("held_changed", "what was loaded from %s was %s, after saving %s it is %s", ob[x].path.c_str(), cut(held[x].whole.text).c_str(), ob[i].path.c_str(), cut(s.text).c_str());
                }
            }
            // saving goes on as usual, and leaves no other files than it leaves when nothing fails
            for (size_t i = 0; i < ob.size(); i++) put(n, i, ob[i].expr, false);
            check(n, "at the end");
            if (node == 0 && !ff.p_unlink)   // a process that died may leave one that is not in use
                for (auto &f : all()) if (!expected.count(f)) violation("files_left", "the file %s is left behind by a save that failed", f.c_str());
            finished = true;
            g_ff.on = false;
        });
        g_ff.on = false;
        g_disk_quota = -1;
    }
    if (!finished) probe(4);
}
// ================================================================== C14
namespace c14 {
struct Op { int kind, size; s64 k; bool keep; std::string extra; };
}
SCENARIO(C14, "a journal is replayed as it was written") {
    using namespace c14;
    policy_io();
    int mode = (int)w.below(4), m = (int)w.range(3, 25);
    std::vector<Op> ops;
    for (int i = 0; i < m; i++) {
        Op o;
        o.kind = w.pick(std::vector<int>{0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7});
        o.size = w.chance(0.3) ? (int)w.range(100, 6000) : (int)w.range(0, 20);
        o.k = 1000000 + i * 20000;
        { int kind = w.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 16}); s64 n = pick_n(w) + 1; o.extra = kind == 16 ? table_expr(w, n, true) : vec_expr(w, kind, n); }
        o.keep = op_keep();
        ops.push_back(o);
    }
    double pc = mode >= 2 ? w.pick(std::vector<double>{0.005, 0.02, 0.08}) : 0;
    if (mode == 0 || mode == 2) soft_faults(w);
    else hard_faults(w, w.pick(std::vector<double>{0.01, 0.05, 0.15}));
    if (w.chance(0.2)) g_ff.p_lseek = w.chance(0.5) ? 0.3 : 0;
    FsFaults ff = g_ff;
    bool full = (mode == 1 || mode == 3) && w.chance(0.3);
    bool hard = mode == 1 || mode == 3;
    s64 room = w.range(0, 20000);
    describe("ops=%d %s%s%s", m, mode == 0 ? "short and interrupted transfers" : mode == 1 ? "failing calls" : mode == 2 ? "crashes" : "failing calls and crashes", full ? ", full disk" : "", ff.p_lseek > 0 ? ", failing truncation" : "");
    // one journal: effects of the items in it, in order; the last one may be there or not when the process died writing it
    struct Journal { std::vector<s64> sure; bool maybe = false, torn = false; s64 last = 0; };
    std::vector<Journal> js(1);
    size_t next = 0;
    bool finished = false;
    static const char *defs[] = {"(set log [0])", "(set mk (fn [n] (til n)))", "(set upd (fn [k x] (set log (concat log (+ k (sum x))))))", "(set upe (fn [k x] (set log (concat log (+ k (count x))))))"};
    auto effect = [](const Op &o, s64 cnt) { return o.kind == 1 ? o.k + cnt : o.k + (s64)o.size * (o.size - 1) / 2; };
    auto path = [&]() { return strf("j%d.log", (int)js.size()); };
    auto parse = [](const std::string &s) {
        std::vector<s64> v;
        size_t b = s.find('[');
        if (b == std::string::npos) return v;
        for (size_t i = b + 1; i < s.size() && s[i] != ']';) { char *e; v.push_back(strtoll(s.c_str() + i, &e, 10)); i = (size_t)(e - s.c_str()); while (i < s.size() && s[i] == ' ') i++; }
        return v;
    };
    // the journal is replayed into an empty log
    auto replay = [&](Node &n, const std::string &h, bool faults) -> bool {
        Journal &j = js.back();
        n.must("(set log [0])");
        g_ff.on = faults;
        std::string r = n.evald("(value (read " + h + "))");
        g_ff.on = false;
        std::vector<s64> got = parse(n.evald("(+ log 0)", nullptr, 1 << 20)), info = parse(r);
        got.erase(got.begin());
        if (r == "ERR") {
            if (j.sure.empty() && got.empty()) {      // nothing in it is an error
                if (j.maybe) j.torn = true;
                j.maybe = false;
                return true;
            }
            if (!faults || !hard) violation("replay_failed", "replaying %s failed; it holds %d items%s, %d were replayed", path().c_str(), (int)j.sure.size(), j.maybe ? " and one more tried" : "", (int)got.size());
            if (got.size() <= j.sure.size() && std::equal(got.begin(), got.end(), j.sure.begin())) return false;
        }
        bool with = j.maybe && got.size() == j.sure.size() + 1 && got.back() == j.last;
        std::vector<s64> want = j.sure;
        if (with) want.push_back(j.last);
        if (got != want) {
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p]) p++;
            violation("replay", "replaying %s did %d items where %d were written%s; the first difference is item %d: %lld for %lld", path().c_str(), (int)got.size(), (int)want.size(), j.maybe ? " and one more tried" : "", (int)p,
                      p < got.size() ? (long long)got[p] : -1, p < want.size() ? (long long)want[p] : -1);
        }
        if (r != "ERR") {
            if (info.size() != 3 || info[0] != (s64)got.size()) violation("replay_count", "replaying %s did %d items and says %s", path().c_str(), (int)got.size(), r.c_str());
            if (!j.torn && !j.maybe && info[1] != info[2]) violation("replay_count", "nothing in %s is incomplete, replaying it says %s", path().c_str(), r.c_str());
            if (info[1] > info[2]) violation("replay_count", "more is read than there is: %s", r.c_str());
            if (j.maybe && !with && info[1] != info[2]) j.torn = true;
        }
        if (with) j.sure.push_back(j.last);
        j.maybe = false;
        probe(0);
        return true;
    };
    for (int node = 0; node < 5 && !finished; node++) {
        on_node(node, [&]() {
            Node n(node);
            n.create({"-c", "1"});
            for (auto d : defs) n.must(d);
            int fd0 = node_fd_count(node);
            bool open = false;
            auto reopen = [&](bool faults) {
                if (open) { n.ok("(hclose h)"); open = false; }
                g_ff.on = faults;
                open = n.ok("(set h (hopen \"" + path() + "\"))");
                g_ff.on = false;
                if (!open && (!faults || !hard)) violation("open_failed", "opening the journal %s failed", path().c_str());
                if (!open) { open = n.ok("(set h (hopen \"" + path() + "\"))"); if (!open) violation("open_failed", "opening the journal %s failed", path().c_str()); }
            };
            reopen(false);
            replay(n, "h", false);
            if (js.back().torn) { js.emplace_back(); reopen(false); }    // what is written behind the torn item would not be reached
            n.must("(set log [0])");
            g_ff = ff;
            if (node < 4) g_ff.p_crash = pc;
            while (next < ops.size()) {
                Op &o = ops[next++];
                if (!o.keep) continue;
                Journal &j = js.back();
                auto write = [&](const std::string &item, s64 eff, const char *h) {
                    j.maybe = true;
                    j.last = eff;
                    if (full) g_disk_quota = (s64)fs_used() + room;
                    g_ff.on = true;
                    bool ok = n.ok(strf("(write %s %s)", h, item.c_str()));
                    g_ff.on = false;
                    g_disk_quota = -1;
                    if (ok) { j.sure.push_back(eff); j.maybe = false; probe(1); return; }
                    if (!hard && !full) violation("write_failed", "appending an item failed although no call it depends on did");
                    j.maybe = false;
                    probe(2);
                    if (ff.p_lseek > 0 || ff.p_stat > 0) {     // what is there of the item may not have been removed
                        j.maybe = true;
                        replay(n, "h", false);
                        if (j.torn) { js.emplace_back(); reopen(false); }
                    }
                };
                switch (o.kind) {
                    case 0: write(strf("(list 'upd %lld (til %d))", (long long)o.k, o.size), effect(o, 0), "h"); break;
                    case 1: {
                        n.must("(set y " + o.extra + ")");
                        std::string c = n.eval("(+ 0 (count y))");
                        write(strf("(list 'upe %lld y)", (long long)o.k), effect(o, atoll(c.c_str())), "h");
                        break;
                    }
                    case 2: write(strf("(list 'upd %lld (list 'mk %d))", (long long)o.k, o.size), effect(o, 0), "h"); break;
                    case 3: reopen(true); break;
                    case 4: if (replay(n, "h", true) && j.torn) { js.emplace_back(); reopen(false); } break;
                    case 5: {   // by another handle of the same file
                        if (!n.ok("(set h2 (hopen \"" + path() + "\"))")) violation("open_failed", "opening the journal %s twice failed", path().c_str());
                        write(strf("(list 'upd %lld (til %d))", (long long)o.k, o.size), effect(o, 0), "h2");
                        n.ok("(hclose h2)");
                        break;
                    }
                    case 6: js.emplace_back(); reopen(false); break;
                    case 7: g_ff.on = true; n.ok("(read \"" + path() + "\")"); g_ff.on = false; break;
                }
            }
            replay(n, "h", false);
            n.must("(hclose h)");
            if (node_fd_count(node) != fd0) violation("descriptors", "%d descriptors stay open:%s", node_fd_count(node) - fd0, node_fd_desc(node).c_str());
            finished = true;
        });
        g_ff.on = false;
        g_disk_quota = -1;
    }
}
// ================================================================== C12
namespace c12 {
struct Op { int o, how, file, use; s64 a, b, c; bool keep, tworeads; };
struct Thing { int kind; std::string load; std::vector<std::string> files; };
static std::string damage(const Op &o, const std::string &s, const std::map<std::string, std::string> &all, std::string *what) {
    std::string r = s;
    size_t n = s.size();
    Rng q((u64)o.c);
    auto put = [&](size_t at, s64 v, int len) { if (at + (size_t)len <= r.size()) memcpy(&r[at], &v, (size_t)len); };
    auto odd = [&]() -> s64 { switch (q.below(8)) { case 0: return 0; case 1: return -1; case 2: return INT64_MAX; case 3: return INT64_MIN; case 4: return (s64)n; case 5: return q.range(-5, 300); case 6: return (s64)1 << q.range(20, 62); default: return (s64)q.next(); } };
    switch (o.how) {
        case 0: r.resize(n ? (size_t)(o.a % (s64)n) : 0); *what = "cut at " + std::to_string(r.size()); break;
        case 1: r.resize((size_t)std::min<s64>((s64)n, o.b)); *what = "cut at " + std::to_string(r.size()); break;
        case 2: { size_t at = n ? (size_t)(o.a % (s64)n) : 0; std::fill(r.begin() + (long)at, r.end(), '\0'); *what = strf("zero from %d", (int)at); break; }
        case 3: r.append((size_t)(1 + o.b), (char)o.c); *what = "longer"; break;
        case 4: case 5: {   // the header
            size_t at = o.how == 5 && n > 4112 && (u8)s[0] != 0xfd ? 4096 : 0;
            if (q.chance(0.5)) put(at + 8, odd(), 8); else put(at + q.below(16), (s64)q.below(256), 1);
            *what = "header changed";
            break;
        }
        case 6: case 7: { int k = (int)q.range(1, 4); for (int i = 0; i < k && n; i++) { size_t at = q.below(n); r[at] = (char)q.next(); } *what = "bytes changed"; break; }
        case 8: { size_t at = n > 8 ? q.below(n - 7) : 0; if (n > 4096 && q.chance(0.5)) at = 4096 + (at % (n - 4096)) / 8 * 8; put(at, odd(), 8); *what = strf("a number at %d changed", (int)at); break; }
        case 9: { auto it = all.begin(); std::advance(it, (long)(o.a % (s64)all.size())); r = it->second; *what = "contents of " + it->first; break; }
        case 10: { r.clear(); for (int i = 0; i < o.b; i++) r += (char)q.next(); *what = "garbage"; break; }
        default: { size_t at = n ? q.below(n) : 0, l = n - at ? q.below(std::min<size_t>(n - at, 64)) : 0; r = s.substr(0, at) + s.substr(at + l); *what = "a piece missing"; break; }
    }
    return r;
}
}
SCENARIO(C12, "damaged files do no harm") {
    using namespace c12;
    policy_io();
    int k = (int)w.range(1, 4), parts = w.chance(0.4) ? (int)w.range(1, 3) : 0, m = (int)w.range(2, 14);
    std::vector<Obj> ob = objects(w, k);
    std::string pt[3];
    { u64 sd = w.next(); s64 n = w.range(1, 60); for (auto &p : pt) { Rng q(sd); p = table_expr(q, n, true); } }
    bool csv = w.chance(0.4);
    std::string ct = table_expr(w, w.range(0, 40), false);
    std::vector<Op> ops;
    for (int i = 0; i < m; i++) {
        Op o;
        o.o = (int)w.below(64);
        o.how = (int)w.below(12);
        o.file = (int)w.below(64);
        o.use = (int)w.below(1 << 20);
        o.a = w.range(0, 1 << 20);
        o.b = w.range(0, 40);
        o.c = w.range(0, 1 << 30);
        o.tworeads = w.chance(0.2);
        o.keep = op_keep();
        ops.push_back(o);
    }
    bool faulty = w.chance(0.3);
    if (faulty) { if (w.chance(0.5)) soft_faults(w); else hard_faults(w, 0.02); } else g_ff = FsFaults();
    bool hard = g_ff.p_eio_r + g_ff.p_open + g_ff.p_mmap + g_ff.p_stat + g_ff.p_close + g_ff.p_readdir > 0;
    std::string wk = w.chance(0.3) ? "2" : "1";
    describe("objects=%d parts=%d damages=%d%s workers=%s", k, parts, m, faulty ? ", faults" : "", wk.c_str());
    std::vector<Thing> th;
    std::vector<Sum> good;
    std::map<std::string, std::string> all;
    // loads that do not need a value in memory
    on_node(0, [&]() {
        Node n(0);
        n.create({"-c", "1"});
        for (int i = 0; setup[i]; i++) n.must(setup[i]);
        auto add = [&](int kind, const std::string &load, const std::vector<std::string> &f0) {
            Thing t;
            t.kind = kind;
            t.load = load;
            for (auto &f : fs_list("/")) if (std::find(f0.begin(), f0.end(), f) == f0.end()) t.files.push_back(f);
            th.push_back(t);
        };
        for (auto &o : ob) {
            auto f0 = fs_list("/");
            n.must("(set v " + o.expr + ")");
            n.must(o.save("v"));
            add(o.kind, o.load(), f0);
            if (o.splayed()) th.back().files.push_back("/db/sym");
        }
        if (parts) {
            auto f0 = fs_list("/");
            for (int i = 0; i < parts; i++) { n.must("(set v " + pt[i] + ")"); n.must(strf("(set-splayed \"pdb/2024.01.0%d/tab/\" v \"pdb/sym\")", i + 1)); }
            add(20, "(get-parted \"pdb/\" 'tab)", f0);
        }
        if (csv) {
            auto f0 = fs_list("/");
            n.must("(set v " + ct + ")");
            n.must("(write-csv \"c.csv\" v)");
            n.must("(set ty (map (fn [c] (type c)) (value v)))");
            std::string ty = n.eval("(concat ty ['I64])");
            add(21, "(read-csv (take [I64 F64 SYMBOL C8 DATE TIMESTAMP] (count (value v))) \"c.csv\")", f0);
            add(22, "(read \"c.csv\")", f0);
        }
        for (auto &f : fs_list("/")) all[f] = fs_read(f);
    });
    // the values as another process sees them
    for (auto &t : th) for (auto it = t.files.begin(); it != t.files.end();) if (!all.count(*it)) it = t.files.erase(it); else ++it;
    on_node(1, [&]() {
        Node n(1);
        n.create({"-c", wk});
        for (int i = 0; setup[i]; i++) n.must(setup[i]);
        n.must("(set v " + ct + ")");
        n.must("(set x 0)");
        std::vector<Sum> ref;
        auto fresh = [&]() { n.ok("(set sym 0)"); };
        auto prep = [&](const Thing &t) {   // the symbol file belongs to the object
            if (t.kind == 20) return n.ok("(set sym (get \"pdb/sym\"))");
            if (t.kind >= 16 && t.kind < 20) return n.ok("(set sym (get \"db/sym\"))");
            return true;
        };
        for (auto &t : th) { prep(t); ref.push_back(sum(n, t.load)); }
        int fd0 = 0, mp0 = 0;
        s64 live0 = 0;
        u64 mark0 = 0;
        static const char *any[] = {"(count x)", "(type x)", "(format \"%\" x)", "(ser x)", "(== 1 1)"};
        static const char *vec[] = {"(first x)", "(last x)", "(at x 2)", "(at x [0 1 5])", "(distinct x)", "(sum x)", "(max x)", "(take x 5)", "(concat x x)", "(reverse x)", "(== x (first x))", "(group x)", "(asc x)", "(in (first x) x)", "(value x)", "(find x (first x))", "(take x -3)", "(avg x)", "(filter x (== x x))"};
        static const char *tab[] = {"(at x 'a)", "(first x)", "(take x 2)", "(at x 1)", "(select {a: a from: x})", "(select {s: (count a) from: x})", "(key x)", "(value x)", "(select {s: (count a) from: x by: a})", "(last x)"};
        for (int round = 0; round < 3; round++) {
            for (size_t q = 0; q < ops.size(); q++) {
                Op &o = ops[q];
                if (!o.keep) continue;
                size_t ti = (size_t)o.o % th.size();
                Thing &t = th[ti];
                if (t.files.empty()) continue;
                std::string f = t.files[(size_t)o.file % t.files.size()], what;
                const std::string &orig = all[f];
                std::string bad = damage(o, orig, all, &what);
                fs_remove(f);   // what is mapped stays as it is
                fs_create(f, bad);
                if (round == 1) note("%s: %s, then %s\n", f.c_str(), what.c_str(), t.load.c_str());
                g_ff.on = faulty && round > 0;
                prep(t);
                if (o.use & 1) fresh();
                bool ok = n.ok("(set x " + t.load + ")");
                g_ff.on = false;
                if (ok) {
                    probe(0);
                    Sum s = sum(n, "x");
                    if (!(s == ref[ti])) probe(2);
                    for (int r = 0; r < 3; r++) {
                        int u = (o.use >> (1 + 5 * r)) & 31;
                        n.ok(any[u % 5]);
                        if (t.kind >= 15 && t.kind <= 20) n.ok(tab[u % 10]);
                        else if (n.eval("(< (count x) 100000)") == "1b" || n.eval("(type x)") == "x") n.ok(vec[u % 19]);
                    }
                    sum(n, "x");
                } else probe(1);
                n.must("(set x 0)");
                // what is not damaged is not affected, neither is the same one once it is whole again
                fs_remove(f);
                fs_create(f, orig);
                size_t oi = (size_t)(o.a % (s64)th.size());
                for (size_t i : {oi, ti}) {
                    prep(th[i]);
                    g_ff.on = faulty && round > 0 && !hard;
                    Sum s = sum(n, th[i].load);
                    g_ff.on = false;
                    if (!(s == ref[i])) violation("other_changed", "after a damaged %s (%s) was loaded, %s gives %s, it gave %s before", f.c_str(), what.c_str(), th[i].load.c_str(), cut(s.text).c_str(), cut(ref[i].text).c_str());
                    probe(3);
                }
            }
            n.must("(set sym 0)");
            n.ok("(til 'x)");
            int fd = node_fd_count(1), mp = file_maps(1);
            if (round == 0) { fd0 = fd; mp0 = mp; live0 = g_heap[1].live; mark0 = leak_mark(); }
            else if (g_heap[1].live != live0) leak_report(mark0);
            if (fd != fd0) violation("descriptors", "a round left %d descriptors open, there were %d:%s", fd, fd0, node_fd_desc(1).c_str());
            if (mp != mp0) violation("mappings", "a round left %d mapped files, there were %d", mp, mp0);
            if (!hard && g_heap[1].live != live0) violation("memory_left", "loading the same damaged files again ends with %lld live allocations, before with %lld", (long long)g_heap[1].live, (long long)live0);
            if (hard && round == 2 && g_heap[1].live > live0 + 3) violation("memory_left", "loading the same damaged files again ends with %lld live allocations, before with %lld", (long long)g_heap[1].live, (long long)live0);
        }
        n.a->destroy();
    });
}
// ================================================================== C15
namespace c15 {
struct Col { std::string name, expr; int kind; bool nulls = false; };
struct Q { std::string text; bool keep; int by = 0; };   // by: columns of a grouped query
static const std::vector<int> kinds = {0, 0, 1, 1, 2, 6, 7, 8, 10, 10};
static std::string key(Rng &w, const Col &c) {   // something to compare a column with
    int u = (int)w.below(1000);
    switch (c.kind) {
        case 0: return std::to_string(w.chance(0.5) ? u : w.range(0, 30));
        case 1: return strf("%d.5", w.chance(0.5) ? u : (int)w.range(0, 15));
        case 2: return strf("%di", u);
        case 3: return strf("(as 'I16 %d)", u);
        case 4: return strf("(as 'U8 %d)", u % 200);
        case 5: return w.chance(0.5) ? "true" : "false";
        case 6: return strf("(+ 2024.01.01 %d)", u);
        case 7: return strf("00:00:00.%03d", u);
        case 8: return strf("2000.01.01D00:00:00.%09d", u);
        case 10: return "'" + w.pick(std::vector<std::string>{"cc", "dd", "ff", "zz", "hh"});
        default: return "";
    }
}
static std::string cond(Rng &w, const std::vector<Col> &cs, int parts, int depth = 0) {
    if (depth < 1 && w.chance(0.25)) return "(" + w.pick(std::vector<std::string>{"and", "or"}) + " " + cond(w, cs, parts, 1) + " " + cond(w, cs, parts, 1) + ")";
    if (w.chance(0.4)) {
        std::string d = strf("2024.01.%02d", (int)w.range(1, parts + 1));
        if (w.chance(0.3)) return strf("(in Date [%s 2024.01.%02d])", d.c_str(), (int)w.range(1, parts + 1));
        return "(" + w.pick(std::vector<std::string>{"==", "<", ">=", "<=", ">", "!="}) + " Date " + d + ")";
    }
    const Col &c = w.pick(cs);
    std::string k = key(w, c);
    if (k.empty()) return strf("(== Date 2024.01.%02d)", (int)w.range(1, parts + 1));
    if (c.kind == 10) return "(" + w.pick(std::vector<std::string>{"==", "!="}) + " " + c.name + " " + k + ")";
    return "(" + w.pick(std::vector<std::string>{"==", "<", ">=", "<=", ">", "!="}) + " " + c.name + " " + k + ")";
}
static std::string outcol(Rng &w, const std::vector<Col> &cs, int i, bool by) {
    const Col &c = w.pick(cs);
    std::string a = w.pick(std::vector<std::string>{"count", "first", "last", "count", "min", "max", "sum", "avg", "med"});
    if (c.kind > 1) a = c.nulls ? "count" : w.pick(std::vector<std::string>{"first", "last", "count"});   // the first and the last in memory are those that are something
    if (c.kind == 2 || (c.kind > 5 && c.kind < 9)) a = w.pick(std::vector<std::string>{"first", "last", "count", "min", "max"});
    if (c.kind == 1 && a == "med") a = "avg";   // (no medians of floats in memory)
    if (c.kind > 5 && c.kind < 9 && a != "count") {   // dates and times are numbers over parts
        if (!by) a = "count";
        else return strf(" v%d: (as 'I64 (%s %s))", i, a.c_str(), c.name.c_str());
    }
    return strf(" v%d: (%s %s)", i, a.c_str(), c.name.c_str());
}
static std::string query(Rng &w, const std::vector<Col> &cs, int parts, int *by) {   // over the table @, grouped by %
    switch (w.below(12)) {
        case 0: return "(count @)";
        case 1: case 2: case 3: case 4: return "(select {from: @ where: " + cond(w, cs, parts) + "})";
        case 5: return "(count (select {from: @ where: " + cond(w, cs, parts) + "}))";
        default: {
            std::string q = "(select {from: @";
            int k = (int)w.range(1, 3);
            bool g = w.chance(0.45);
            for (int i = 0; i < k; i++) q += outcol(w, cs, i, g);
            if (g) { q += " by: %"; *by = k; }
            if (w.chance(0.5)) q += " where: " + cond(w, cs, parts);
            return q + "})";
        }
    }
}
}
SCENARIO(C15, "a table kept in parts answers as one in memory") {
    using namespace c15;
    policy_io();
    static const std::vector<std::string> nm = {"a", "b", "price", "ts", "sym1", "flag"};
    int k = (int)w.range(1, 5), parts = (int)w.range(1, 5);
    bool big = w.chance(0.04);
    std::vector<s64> len;
    s64 n = 0;
    for (int i = 0; i < parts; i++) { len.push_back(big ? w.range(4000, 12000) : w.chance(0.15) ? 1 : w.range(1, 30)); n += len.back(); }
    std::vector<Col> cs;
    for (int i = 0; i < k; i++) { Col c; c.name = nm[(size_t)i]; c.kind = w.pick(kinds); c.expr = vec_expr(w, c.kind, n, false);
        size_t z = c.expr.find("0Ns");
        if (z != std::string::npos && !(c.nulls = w.chance(0.3))) c.expr.replace(z, 3, "ii");
        cs.push_back(c); }
    std::vector<Q> qs;
    int m = (int)w.range(4, 14);
    for (int i = 0; i < m; i++) { Q q; q.text = query(w, cs, parts, &q.by); q.keep = op_keep(); qs.push_back(q); }
    bool faulty = w.chance(0.3);
    if (faulty) soft_faults(w); else g_ff = FsFaults();
    std::string wk = w.pick(std::vector<std::string>{"1", "2", "4", "8"});
    describe("parts=%d columns=%d rows=%lld workers=%s%s", parts, k, (long long)n, wk.c_str(), faulty ? ", short reads" : "");
    std::string names, cols, dates;
    for (auto &c : cs) { names += (names.empty() ? "" : " ") + c.name; cols += " c_" + c.name; }
    auto columns = [&](Node &nd) { for (auto &c : cs) nd.must("(set c_" + c.name + " " + c.expr + ")"); };
    on_node(0, [&]() {
        Node nd(0);
        nd.create({"-c", "1"});
        columns(nd);
        s64 at = 0;
        for (int i = 0; i < parts; i++) {
            std::string cl;
            for (auto &c : cs) cl += len[(size_t)i] ? strf(" (at c_%s (+ %lld (til %lld)))", c.name.c_str(), (long long)at, (long long)len[(size_t)i]) : " (take c_" + c.name + " 0)";
            nd.must("(set-splayed \"pdb/2024.01." + strf("%02d", i + 1) + "/tab/\" (table [" + names + "] (list" + cl + ")) \"pdb/sym\")");
            at += len[(size_t)i];
        }
        nd.must("(set-splayed \"spl/\" (table [Date " + names + "] (list (take 2024.01.01 " + std::to_string(n) + ")" + cols + ")) \"pdb/sym\")");
        nd.a->destroy();
    });
    for (int i = 0; i < parts; i++) dates += strf(" (take 2024.01.%02d %lld)", i + 1, (long long)len[(size_t)i]);
    std::string d = parts == 1 ? dates.substr(1) : "";
    if (parts > 1) { d = strf("(take 2024.01.01 %lld)", (long long)len[0]); for (int i = 1; i < parts; i++) d = "(concat " + d + strf(" (take 2024.01.%02d %lld))", i + 1, (long long)len[(size_t)i]); }
    on_node(1, [&]() {
        Node nd(1);
        nd.create({"-c", wk});
        columns(nd);
        // (a table in memory can not be grouped by dates, but by their numbers)
        nd.must("(set m (table [Date " + names + "] (list " + d + cols + ")))");
        nd.must("(set m1 (table [Date " + names + "] (list (take 2024.01.01 " + std::to_string(n) + ")" + cols + ")))");
        nd.must("(set g (table [Date Dk " + names + "] (list " + d + " (as 'I64 " + d + ")" + cols + ")))");
        g_ff.on = faulty;
        nd.must("(set p (get-parted \"pdb/\" 'tab))");
        nd.must("(set s (get-splayed \"spl/\" \"pdb/sym\"))");
        g_ff.on = false;
        auto with = [](const std::string &q, const char *t, const char *by = "") { std::string r; for (char ch : q) if (ch == '@') r += t; else if (ch == '%') r += by; else r += ch; return r; };
        for (auto &q : qs) {
            if (!q.keep) continue;
            if (q.by) {
                std::string va, vb;
                for (int i = 0; i < q.by; i++) va += strf(" (at r 'v%d)", i);
                bool oa = nd.ok("(set r " + with(q.text, "g", "Dk") + ")");
                Sum a = oa ? sum(nd, "(list (at r 'Dk)" + va + ")") : Sum();
                bool ob = nd.ok("(set r " + with(q.text, "p", "Date") + ")");
                Sum b = ob ? sum(nd, "(list (as 'I64 (at r 'Date))" + va + ")") : Sum();
                probe(4);
                if (oa != ob) violation("one_fails", "%s over a table in parts %s, over the same in memory %s", q.text.c_str(), ob ? "gives something" : "fails", oa ? "gives something" : "fails");
                if (oa && !(a == b)) violation("parted_differs", "%s over a table in parts gives %s, over the same in memory %s", q.text.c_str(), from(b, a).c_str(), from(a, b).c_str());
                if (!oa) { probe(5); note("fails: %s", q.text.c_str()); }
                continue;
            }
            for (int what = 0; what < 2; what++) {
                Sum a = sum(nd, with(q.text, what ? "m1" : "m")), b = sum(nd, with(q.text, what ? "s" : "p"));
                probe(what ? 2 : 0);
                if (a.err() != b.err()) violation("one_fails", "%s over a table %s gives %s, over the same in memory %s", q.text.c_str(), what ? "on disk" : "in parts", from(b, a).c_str(), from(a, b).c_str());
                if (a.err()) { probe(what ? 3 : 1); note("fails: %s", q.text.c_str()); continue; }
                if (!(a == b)) violation(what ? "splayed_differs" : "parted_differs", "%s over a table %s gives %s, over the same in memory %s", q.text.c_str(), what ? "on disk" : "in parts", from(b, a).c_str(), from(a, b).c_str());
            }
        }
        nd.a->destroy();
    });
}
