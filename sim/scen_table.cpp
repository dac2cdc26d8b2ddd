// Tables of a server changed by its clients: every request takes effect once and as a whole, values are independent.
#include "ipcx.h"
#include <functional>
#include <map>
#include <set>

namespace c16 {
struct Cell {
    bool nul = true;
    s64 v = 0;          // numbers; floats in quarters
    std::string t;      // symbols, texts
    bool operator==(const Cell &o) const { return nul == o.nul && (nul || (v == o.v && t == o.t)); }
};
struct Col {
    char ty = 'i';      // i I64, f F64, s SYMBOL, p TIMESTAMP, n I32, x texts
    std::vector<Cell> c;
};
struct Tab {
    std::vector<std::string> nm;
    std::vector<Col> col;
    size_t rows() const { return col.empty() ? 0 : col[0].c.size(); }
    int find(const std::string &n) const { for (size_t i = 0; i < nm.size(); i++) if (nm[i] == n) return (int)i; return -1; }
};
struct State {
    std::map<std::string, Tab> tab;
    std::map<std::string, Col> vec;
};
static Cell num(s64 v) { Cell c; c.nul = false; c.v = v; return c; }
static Cell txt(const std::string &t) { Cell c; c.nul = false; c.t = t; return c; }
static std::string atom(char ty, const Cell &c) {
    switch (ty) {
        case 'i': return c.nul ? "0Nl" : std::to_string(c.v);
        case 'f': return c.nul ? "0Nf" : strf("%s%lld.%02d", c.v < 0 ? "-" : "", (long long)(std::abs(c.v) / 4), (int)(std::abs(c.v) % 4) * 25);
        case 's': return c.nul ? "0Ns" : "'" + c.t;
        case 'p': return c.nul ? "0Np" : strf("2000.01.01D00:00:00.%09lld", (long long)c.v);
        case 'n': return c.nul ? "0Ni" : std::to_string(c.v) + "i";
        case 'd': return c.nul ? "0Nd" : strf("2000.01.%02lld", (long long)(c.v % 28 + 1));
        default: return "\"" + c.t + "\"";
    }
}
static std::string vect(const Col &k) {
    if (k.ty == 'x') {
        std::string s = "(list";
        for (auto &c : k.c) s += " " + atom('x', c);
        return s + ")";
    }
    std::string s;
    for (auto &c : k.c) s += (s.empty() ? "" : " ") + (k.ty == 's' ? (c.nul ? "0Ns" : c.t) : atom(k.ty == 'p' ? 'i' : k.ty, c));   // dates are written as they are
    const char *cast = k.ty == 'p' ? "(as 'TIMESTAMP " : "";
    const char *z = k.ty == 'f' ? "[0.5]" : k.ty == 's' ? "[a]" : k.ty == 'd' ? "[2000.01.01]" : k.ty == 'n' ? "[0i]" : "[0]";
    s = s.empty() ? strf("(take %s 0)", z) : "[" + s + "]";
    return *cast ? cast + s + ")" : s;
}
static std::string names(const Tab &t) { std::string s; for (auto &n : t.nm) s += (s.empty() ? "" : " ") + n; return "[" + s + "]"; }
static std::string cols(const Tab &t) { std::string s = "(list"; for (auto &c : t.col) s += " " + vect(c); return s + ")"; }
static std::string dump(const std::string &v) { return "(list (key " + v + ") (value " + v + "))"; }
static std::string dump(const Tab &t) { return "(list " + names(t) + " " + cols(t) + ")"; }

static Cell cell(Rng &w, char ty, bool key = false) {
    static const std::vector<std::string> sy = {"aa", "bb", "cc", "dd", "ee"};
    if (key) return num(w.range(0, 12));
    if (ty != 'x' && w.chance(0.15)) return Cell();
    switch (ty) {
        case 's': return txt(w.pick(sy));
        case 'x': return txt(w.pick(std::vector<std::string>{"x", "some text", "a longer text that is not short", "yy"}));
        case 'p': return num(w.range(0, 999999));
        case 'd': return num(w.range(0, 27));
        default: return num(w.range(-50, 1000));
    }
}
// part of a table given by names (all of it or a prefix), with random rows
static Tab rows(Rng &w, const Tab &schema, size_t ncol, int n) {
    Tab r;
    for (size_t i = 0; i < ncol; i++) {
        r.nm.push_back(schema.nm[i]);
        Col c;
        c.ty = schema.col[i].ty;
        for (int j = 0; j < n; j++) c.c.push_back(cell(w, c.ty, i == 0));
        r.col.push_back(c);
    }
    return r;
}
static void shuffle(Rng &w, Tab &t) {
    for (size_t i = t.nm.size(); i > 1; i--) { size_t j = w.below(i); std::swap(t.nm[i - 1], t.nm[j]); std::swap(t.col[i - 1], t.col[j]); }
}
static std::string as_row(const Tab &r) { std::string s = "(list"; for (auto &c : r.col) s += " " + atom(c.ty, c.c[0]); return s + ")"; }
static std::string as_dict(const Tab &r, bool one) { return "(dict " + names(r) + " " + (one ? as_row(r) : cols(r)) + ")"; }
static std::string as_table(const Tab &r) { return "(table " + names(r) + " " + cols(r) + ")"; }
// a row of t out of row j of r (by name)
static void push(Tab &t, const Tab &r, size_t j) {
    for (size_t i = 0; i < t.nm.size(); i++) { int k = r.find(t.nm[i]); t.col[i].c.push_back(k < 0 ? Cell() : r.col[(size_t)k].c[j]); }
}
static void upsert(Tab &t, const Tab &r, size_t keys) {
    for (size_t j = 0; j < (r.col.empty() ? 0 : r.col[0].c.size()); j++) {
        size_t n = t.rows(), at = n;
        for (size_t i = 0; i < n && at == n; i++) {
            bool eq = true;
            for (size_t k = 0; k < keys; k++) { int q = r.find(t.nm[k]); if (!(t.col[k].c[i] == r.col[(size_t)q].c[j])) eq = false; }
            if (eq) at = i;
        }
        if (at == n) { push(t, r, j); continue; }
        for (size_t i = keys; i < t.nm.size(); i++) { int q = r.find(t.nm[i]); if (q >= 0) t.col[i].c[at] = r.col[(size_t)q].c[j]; }
    }
}
typedef std::function<bool(const Cell &, const Cell &)> Pred;   // of the key and of the symbol of a row
struct Cond { std::string text; Pred p; };
static Cond cond(Rng &w, const Tab &s) {
    s64 c = w.range(0, 12), d = w.range(0, 12);
    bool sym = s.find("s") >= 0;
    switch (w.below(sym ? 6 : 3)) {
        case 0: return {strf("(> k %lld)", (long long)c), [c](const Cell &k, const Cell &) { return k.v > c; }};
        case 1: return {strf("(== k %lld)", (long long)c), [c](const Cell &k, const Cell &) { return k.v == c; }};
        case 2: return {strf("(or (< k %lld) (== k %lld))", (long long)c, (long long)d), [c, d](const Cell &k, const Cell &) { return k.v < c || k.v == d; }};
        case 3: return {"(== s 'bb)", [](const Cell &, const Cell &y) { return !y.nul && y.t == "bb"; }};
        case 4: return {strf("(and (!= s 'aa) (<= k %lld))", (long long)c), [c](const Cell &k, const Cell &y) { return (y.nul || y.t != "aa") && k.v <= c; }};
        default: return {strf("(and (>= k %lld) (!= k %lld))", (long long)c, (long long)d), [c, d](const Cell &k, const Cell &) { return k.v >= c && k.v != d; }};
    }
}
struct Op {
    std::string text;                               // what the server evaluates
    std::function<bool(State &)> apply;             // false: has to fail and to change nothing
    std::function<std::string(State &)> want;       // for requests that return something
    bool async = false, keep = true;
    s64 pause = 0;
    std::string form;
};
static std::string place(Rng &w, const std::string &call_in, const std::string &call_val, const std::string &src, std::string *dst, int *mode, const std::vector<std::string> &tv) {
    *mode = (int)w.pick(std::vector<int>{0, 0, 0, 1, 1, 2, 3});
    switch (*mode) {
        case 0: *dst = src; return call_in;                                         // in place
        case 1: *dst = src; return "(set " + src + " " + call_val + ")";            // the variable is set again
        case 2: *dst = w.pick(tv); return "(set " + *dst + " " + call_val + ")";    // another one is set
        default: *dst = ""; return call_val;                                        // the result is given away
    }
}
static Op make(Rng &w, const Tab &schema, bool widen) {
    static const std::vector<std::string> tv = {"t0", "t1", "t2", "z0", "z1"};
    static const std::vector<std::string> cv = {"c0", "c1"};
    Op o;
    std::string T = w.pick(tv);
    int kind = (int)w.below(30);
    auto table_op = [&](const std::string &op, const std::string &rest, std::function<void(Tab &)> f) {
        std::string in = "(" + op + " '" + T + rest + ")", val = "(" + op + " " + T + rest + ")", dst;
        int mode;
        o.text = place(w, in, val, T, &dst, &mode, tv);
        std::string src = T;
        o.apply = [=](State &s) { Tab t = s.tab[src]; f(t); if (!dst.empty()) s.tab[dst] = t; return true; };
    };
    size_t nc = schema.nm.size();
    if (kind < 7) {   // insert
        int n = w.chance(0.5) ? 1 : (int)w.range(1, w.chance(0.1) ? 40 : 5);
        bool part = w.chance(0.25) && schema.col[nc - 1].ty != 'x';
        Tab r = rows(w, schema, part ? (size_t)w.range(1, (s64)nc) : nc, n);
        std::string x;
        int f = (int)w.below(4);
        bool one = n == 1 && w.chance(0.7);
        if (part && std::any_of(schema.col.begin() + (long)r.nm.size(), schema.col.end(), [](const Col &c) { return c.ty == 'x'; })) r = rows(w, schema, nc, n);
        if (f == 0) x = one ? as_row(r) : cols(r);
        else if (f == 1) { shuffle(w, r); x = as_dict(r, one && r.col[0].ty != 'x'); }
        else if (f == 2) { shuffle(w, r); x = as_table(r); }
        else x = one ? as_row(r) : cols(r);
        table_op("insert", " " + x, [r](Tab &t) { for (size_t j = 0; j < r.col[0].c.size(); j++) push(t, r, j); });
        o.form = "insert";
    } else if (kind < 14) {   // upsert
        int n = w.chance(0.5) ? 1 : (int)w.range(1, 6);
        size_t keys = nc > 1 && schema.col[1].ty != 'x' && w.chance(0.3) ? 2 : 1;
        bool part = w.chance(0.3);
        size_t m = part ? (size_t)w.range((s64)keys, (s64)nc) : nc;
        for (size_t i = m; i < nc; i++) if (schema.col[i].ty == 'x') m = nc;
        Tab r = rows(w, schema, m, n);
        bool one = n == 1 && w.chance(0.7);
        int f = m == nc && !widen ? (int)w.below(3) : 0;
        std::string x;
        if (f == 0) x = one ? as_row(r) : cols(r);
        else if (f == 1) { shuffle(w, r); x = as_dict(r, one && r.col[0].ty != 'x'); }
        else { shuffle(w, r); x = as_table(r); }
        table_op("upsert", strf(" %d ", (int)keys) + x, [r, keys](Tab &t) { upsert(t, r, keys); });
        o.form = "upsert";
    } else if (kind < 19) {   // update
        std::vector<std::string> cand;
        for (size_t i = 1; i < nc; i++) if (schema.col[i].ty == 'i' || schema.col[i].ty == 'f') cand.push_back(schema.nm[i]);
        if (cand.empty()) cand.push_back("k");
        std::string v = w.pick(cand);
        char ty = schema.col[(size_t)schema.find(v)].ty;
        s64 c = w.range(1, 9);
        bool wh = w.chance(0.7), add = widen && w.chance(0.4);
        Cond q = cond(w, schema);
        if (v == "k") add = true;
        int e = (int)w.below(3);
        if (add && !widen) { o.text = "(count " + T + ")"; o.apply = [](State &) { return true; }; o.form = "count"; return o; }
        std::string ex = add ? strf("w: (+ k %lld)", (long long)c)
                       : e == 0 ? strf("%s: (+ %s %lld)", v.c_str(), v.c_str(), (long long)c)
                       : e == 1 ? v + ": " + (ty == 'f' ? strf("%lld.25", (long long)c) : std::to_string(c))
                                : v + ": " + (ty == 'f' ? strf("(+ 0.5 k)") : strf("(* k %lld)", (long long)c));
        std::string dst, src = T;
        int mode;
        std::string a = "(update {" + ex + " from: ", b = wh ? " where: " + q.text + "})" : "})";
        o.text = place(w, a + "'" + T + b, a + T + b, T, &dst, &mode, tv);
        o.apply = [=](State &s) {
            Tab t = s.tab[src];
            int is = t.find("s"), iv = t.find(add ? "w" : v);
            if (iv < 0) {
                Col nw;
                nw.c.resize(t.rows());
                t.nm.push_back("w");
                t.col.push_back(nw);
                iv = (int)t.nm.size() - 1;
            }
            for (size_t i = 0; i < t.rows(); i++) {
                const Cell &k = t.col[0].c[i];
                if (wh && !q.p(k, is < 0 ? Cell() : t.col[(size_t)is].c[i])) continue;
                Cell &x = t.col[(size_t)iv].c[i];
                if (add) x = num(k.v + c);
                else if (e == 0) { if (!x.nul) x.v += ty == 'f' ? 4 * c : c; }
                else if (e == 1) x = num(ty == 'f' ? 4 * c + 1 : c);
                else x = num(ty == 'f' ? 4 * k.v + 2 : k.v * c);
            }
            if (!dst.empty()) s.tab[dst] = t;
            return true;
        };
        o.form = "update";
    } else if (kind < 21) {   // alter a column or a vector
        s64 c = w.range(1, 9);
        if (w.chance(0.5) || schema.find("v") < 0) {
            std::string V = w.pick(cv), D = w.chance(0.4) ? w.pick(cv) : V;
            bool in = w.chance(0.5);
            o.text = in ? strf("(alter '%s + %lld)", V.c_str(), (long long)c) : strf("(set %s (alter %s + %lld))", D.c_str(), V.c_str(), (long long)c);
            if (in) D = V;
            o.apply = [=](State &s) { Col x = s.vec[V]; for (auto &y : x.c) if (!y.nul) y.v += c; s.vec[D] = x; return true; };
        } else table_op("alter", strf(" + 'v %lld", (long long)c), [c](Tab &t) { for (auto &y : t.col[(size_t)t.find("v")].c) if (!y.nul) y.v += c; });
        o.form = "alter";
    } else if (kind < 24) {   // another name for the same value
        std::string D = w.pick(tv);
        if (w.chance(0.35)) {
            std::string C = w.pick(cv), cn = schema.find("v") >= 0 && w.chance(0.6) ? "v" : "k";
            o.text = "(set " + C + " (at " + T + " '" + cn + "))";
            o.apply = [=](State &s) { const Tab &t = s.tab[T]; s.vec[C] = t.col[(size_t)t.find(cn)]; return true; };
        } else if (w.chance(0.3)) {
            o.text = "(set " + D + " (table (key " + T + ") (value " + T + ")))";
            o.apply = [=](State &s) { Tab t = s.tab[T]; s.tab[D] = t; return true; };
        } else {
            o.text = "(set " + D + " " + T + ")";
            o.apply = [=](State &s) { Tab t = s.tab[T]; s.tab[D] = t; return true; };
        }
        o.form = "alias";
    } else if (kind < 27) {   // read
        if (w.chance(0.5)) { o.text = dump(T); o.want = [T](State &s) { return dump(s.tab[T]); }; }
        else {
            Cond q = cond(w, schema);
            o.text = "(list (count " + T + ") (at (select {k: k from: " + T + " where: " + q.text + "}) 'k))";
            o.want = [T, q](State &s) {
                const Tab &t = s.tab[T];
                int is = t.find("s");
                Col r;
                for (size_t i = 0; i < t.rows(); i++) if (q.p(t.col[0].c[i], is < 0 ? Cell() : t.col[(size_t)is].c[i])) r.c.push_back(t.col[0].c[i]);
                return strf("(list %d ", (int)t.rows()) + vect(r) + ")";
            };
        }
        o.apply = [](State &) { return true; };
        o.form = "read";
    } else {   // has to fail and to change nothing
        bool in = w.chance(0.7);
        std::string X = in ? "'" + T : T;
        Tab full = rows(w, schema, nc, 2);
        std::string x;
        switch (w.below(9)) {
            case 0: x = "(insert " + X + " " + as_row(rows(w, schema, nc, 1)).substr(0, 5) + " 1"; for (size_t i = 0; i < nc + 3; i++) x += " 2"; x += "))"; break;   // too many
            case 1: { Tab r = rows(w, schema, nc, 1); x = "(insert " + X + " (list"; for (size_t i = 0; i < nc; i++) x += i + 1 == nc && r.col[i].ty != 'x' ? " true" : " " + atom(r.col[i].ty, r.col[i].c[0]); x += nc && r.col[nc - 1].ty == 'x' ? " 1 2 3 4 5))" : "))"; break; }
            case 2: { if (nc > 1) full.col[nc - 1].c.pop_back(); else full.col[0].c.clear(); x = "(insert " + X + " " + cols(full) + ")"; break; }
            case 3: { if (nc > 1) full.col[nc - 1].c.pop_back(); else full.col[0].c.clear(); x = nc > 1 ? "(upsert " + X + " 1 " + cols(full) + ")" : "(upsert " + X + " 0 (list 1))"; break; }
            case 4: x = "(insert " + X + " (dict [k nowhere] (list 1 2)))"; break;
            case 5: x = "(update {k: 'bad from: " + X + " where: (>= k 0)})"; break;
            case 6: x = "(update {zz: (* k 2) k: 'bad from: " + X + " where: (>= k 0)})"; break;
            case 7: x = "(update {k: (raise \"no\") from: " + X + "})"; break;
            default: x = "(upsert " + X + " 1 (list 'bad))"; break;
        }
        o.text = x;
        o.apply = [](State &) { return false; };
        o.form = "failing";
    }
    return o;
}
struct Done { int id; bool acked; bool failed; std::string got; };
}
SCENARIO(C16, "requests that change tables take effect once, as a whole and in one order; values that are not named do not change") {
    using namespace c16;
    policy_io();
    int nc = (int)w.range(1, 4);
    bool bad = w.chance(0.4), widen = w.chance(0.3);
    Tab schema;
    auto add = [&](const char *n, char ty) { schema.nm.push_back(n); Col c; c.ty = ty; schema.col.push_back(c); };
    add("k", 'i');
    for (auto &p : std::vector<std::pair<const char *, char>>{{"v", 'i'}, {"s", 's'}, {"f", 'f'}, {"p", 'p'}, {"n", 'n'}, {"d", 'd'}, {"x", 'x'}}) if (w.chance(0.5)) add(p.first, p.second);
    for (size_t i = schema.nm.size(); i > 2; i--) { size_t j = 1 + w.below(i - 1); std::swap(schema.nm[i - 1], schema.nm[j]); std::swap(schema.col[i - 1], schema.col[j]); }
    State init;
    for (auto t : {"t0", "t1", "t2"}) {
        Tab r = rows(w, schema, schema.nm.size(), 0);
        int n = w.chance(0.15) ? (int)w.range(20, 300) : (int)w.range(1, 12);
        for (int i = 0; i < n; i++) { Tab one = rows(w, schema, schema.nm.size(), 1); if (n < 12) one.col[0].c[0] = num(i); push(r, one, 0); }
        init.tab[t] = r;
    }
    init.tab["z0"] = init.tab["z1"] = init.tab["t0"];
    init.vec["c0"] = init.vec["c1"] = init.tab["t0"].col[0];
    std::string wk = w.pick(std::vector<std::string>{"1", "1", "4"});
    describe("clients=%d columns=%s workers=%s%s%s", nc, names(schema).c_str(), wk.c_str(), bad ? " breaking" : "", widen ? " widening" : "");
    benign_net(w);
    std::vector<std::vector<Op>> plan((size_t)nc);
    for (auto &v : plan) {
        int m = (int)w.range(3, 18);
        for (int i = 0; i < m; i++) {
            Op o = make(w, schema, widen);
            o.async = !o.want && w.chance(0.15);
            o.pause = w.chance(0.3) ? w.range(1, 3000) * 1000 : 0;
            v.push_back(o);
        }
    }
    for (auto &v : plan) for (auto &o : v) o.keep = op_keep();
    Server srv;
    srv.args = {"-c", wk};
    std::vector<std::string> defs = {"(set lg [0])", "(set note (fn [x] (set lg (concat lg x))))"};
    for (auto &t : init.tab) if (t.first[0] == 't') defs.push_back("(set " + t.first + " " + as_table(t.second) + ")");
    for (auto s : {"(set z0 t0)", "(set z1 t0)", "(set c0 (at t0 'k))", "(set c1 (at t0 'k))"}) defs.push_back(s);
    start_server(srv, defs);
    if (bad) {
        g_nf.p_reset = w.pick(std::vector<double>{0.001, 0.005, 0.02});
        g_nf.p_rstdrop = w.pick(std::vector<double>{0, 0.5, 1});
        describe(" reset=%.4f", g_nf.p_reset);
    }
    g_nf.on = true;
    static std::vector<std::vector<Done>> done;
    done.assign((size_t)nc, {});
    std::vector<int> thr;
    for (int c = 0; c < nc; c++) {
        thr.push_back(spawn_node(2 + c, [&, c]() {
            Node n(2 + c);
            n.create({"-c", "1"});
            bool live = false;
            std::string ok = n.eval("'ok"), failed = n.eval("'failed");
            auto open = [&]() { live = !conn_open(n, 5101, bad ? 30 : 1).empty(); if (!live && !bad) violation("open_failed", "client %d: opening a connection failed although the network is reliable", c); };
            open();
            int i = 0;
            for (auto &o : plan[(size_t)c]) {
                int id = (c + 1) * 1000 + i++;
                if (!o.keep) continue;
                if (o.pause) sim_sleep(o.pause);
                if (!live) open();
                if (!live) break;
                std::string what = strf("(do (note %d) ", id);
                if (o.want) what += o.text + ")";
                else what += "(try (do " + o.text + " 'ok) (fn [e] 'failed)))";
                Done d = {id, false, false, ""};
                if (o.async) {
                    if (!n.ok("(write (neg h) " + esc(what) + ")")) { if (!bad) violation("request_failed", "client %d: %s failed although the network is reliable", c, what.c_str()); live = false; }
                } else {
                    std::string got = n.evald("(write h " + esc(what) + ")", nullptr, 1 << 22);
                    if (got == "ERR") {
                        if (!bad) violation("request_failed", "client %d: %s is answered by an error: %s", c, what.c_str(), n.fmt("(write h " + esc(what) + ")").c_str());
                        n.ok("(hclose h)");
                        live = false;
                    } else {
                        d.acked = true;
                        if (o.want) d.got = got;
                        else if (got == failed) d.failed = true;
                        else if (got != ok) violation("wrong_response", "client %d: %s gives %s", c, what.c_str(), got.c_str());
                    }
                }
                done[(size_t)c].push_back(d);
            }
            if (live) n.ok("(write h \"1\")");
            n.ok("(hclose h)");
        }));
    }
    for (int c = 0; c < nc; c++)
        if (!wait_thr_for(thr[(size_t)c], 900 * SEC)) violation("stuck", "client %d did not end within 900 s of simulated time", c);
    g_nf.on = false;
    static std::vector<s64> lg;
    lg.clear();
    int lt = sim_spawn(50, [&]() {
        sim_sleep(SEC);
        Raw r;
        std::string p;
        if (!r.open(5101) || !r.ask("lg", &p) || !Raw::ints(p, &lg) || lg.empty()) violation("server_gone", "the server does not tell its log at the end");
        r.close();
    });
    if (!wait_thr_for(lt, 100 * SEC)) violation("stuck", "the server does not answer once faults have stopped");
    int t = spawn_node(1, [&]() {   // the tables at the end
        Node n(1);
        n.create({"-c", "1"});
        sim_sleep(SEC);
        if (conn_open(n, 5101, 1).empty()) violation("server_gone", "the server does not accept a connection at the end");
        lg.erase(lg.begin());
        State st = init;
        std::map<int, Done> by;
        for (auto &v : done) for (auto &d : v) by[d.id] = d;
        std::set<s64> seen;
        std::map<s64, s64> last;
        std::string hist;
        for (s64 id : lg) {
            if (!by.count((int)id)) violation("not_sent", "the server has executed request %lld that was not sent", (long long)id);
            if (!seen.insert(id).second) violation("twice", "the server has executed request %lld twice", (long long)id);
            s64 c = id / 1000 - 1;
            if (last.count(c) && last[c] > id) violation("order", "request %lld of client %lld was executed after request %lld", (long long)id, (long long)c, (long long)last[c]);
            last[c] = id;
            const Op &o = plan[(size_t)c][(size_t)(id % 1000)];
            const Done &d = by[(int)id];
            State before = st;
            bool good = o.apply(st);
            if (!good) st = before;
            hist += strf("%s%s; ", o.text.c_str(), good ? "" : " (fails)");
            if (hist.size() > 3000) hist.erase(0, hist.size() - 3000);
            if (o.want) {
                probe(1);
                if (!d.acked) continue;
                std::string want = n.evald(o.want(before), nullptr, 1 << 22);
                if (d.got != want) { note("%s\n", hist.c_str()); violation("wrong_answer", "request %lld, %s, gives %.400s; in the order of the server's log it is to give %.400s", (long long)id, o.text.c_str(), d.got.c_str(), want.c_str()); }
                continue;
            }
            probe(good ? 0 : 2);
            if (d.acked && d.failed == good) { note("%s\n", hist.c_str()); violation(good ? "failed" : "succeeded", "request %lld, %.600s, %s", (long long)id, o.text.c_str(), good ? "fails" : "succeeds"); }
        }
        for (auto &d : by)
            if (d.second.acked && !seen.count(d.first)) violation("lost", "request %d was answered and is not in the server's log", d.first);
        if (!bad)
            for (auto &d : by)
                if (!seen.count(d.first)) violation("lost", "request %d was sent over a reliable network and is not in the server's log", d.first);
        for (auto &v : st.tab) {
            std::string got = n.evald("(write h " + esc(dump(v.first)) + ")", nullptr, 1 << 22), want = n.evald(dump(v.second), nullptr, 1 << 22);
            probe(3);
            if (got != want) { note("%s\n", hist.c_str()); violation("table", "%s ends as %.500s; the requests in the order of the server's log make it %.500s", v.first.c_str(), got.c_str(), want.c_str()); }
        }
        for (auto &v : st.vec) {
            std::string got = n.evald("(write h " + esc(v.first) + ")", nullptr, 1 << 22), want = n.evald(vect(v.second), nullptr, 1 << 22);
            if (got != want) { note("%s\n", hist.c_str()); violation("vector", "%s ends as %.500s; the requests in the order of the server's log make it %.500s", v.first.c_str(), got.c_str(), want.c_str()); }
        }
        n.ok("(hclose h)");
    });
    if (!wait_thr_for(t, 200 * SEC)) violation("stuck", "the server does not answer once faults have stopped");
}
