// Text files of tables: what write-csv writes is what read-csv reads, however a file is written down, split over workers or interrupted.
#include "ipcx.h"
#include <cmath>
namespace csv {
struct Cell { bool nul = false; std::string lit, text; };   // as an expression, and as it stands in a file
struct Col { char ty; std::string name; std::vector<Cell> base; };
static const std::vector<std::string> plain = {"aa", "b", "Ccc_1", "d9", "e", "longer_name_of_a_symbol", "x1", "yy"};
static std::string types(const std::vector<Col> &cs) {
    std::string s;
    for (auto &c : cs) s += std::string(s.empty() ? "" : " ") + (c.ty == 'i' ? "I64" : c.ty == 'n' ? "I32" : c.ty == 'h' ? "I16" : c.ty == 'u' ? "U8" : c.ty == 'b' ? "B8" : c.ty == 'f' ? "F64" : c.ty == 's' ? "SYMBOL" : c.ty == 'x' ? "C8" : c.ty == 'd' ? "DATE" : c.ty == 't' ? "TIME" : c.ty == 'p' ? "TIMESTAMP" : "GUID");
    return "[" + s + "]";
}
static Cell both(const std::string &t, const char *suffix = "") { Cell c; c.lit = t + suffix; c.text = t; return c; }
static Cell null(const char *lit) { Cell c; c.nul = true; c.lit = lit; return c; }
static std::string float_text(double v) {
    std::string t = strf("%.15g", v);
    return strtod(t.c_str(), nullptr) == v ? t : strf("%.17g", v);
}
static Cell cell(Rng &w, char ty, char sep, bool many) {
    bool nul = w.chance(0.12);
    auto ymd = [&]() { return strf("%04lld.%02lld.%02lld", (long long)w.range(1905, 2190), (long long)w.range(1, 12), (long long)w.range(1, 28)); };
    switch (ty) {
        case 'i': return nul ? null("0Nl") : both(w.chance(0.1) ? w.pick(std::vector<std::string>{"9223372036854775807", "-9223372036854775807", "0", "-1", "99999999", "100000000", "1234567890123456789", "123456789012345678"}) : std::to_string(w.range(-1000, 1000) * (w.chance(0.2) ? w.range(1, 1000000000000000) : 1)));
        case 'n': return nul ? null("0Ni") : both(w.chance(0.1) ? w.pick(std::vector<std::string>{"2147483647", "-2147483647", "0", "12345678", "-1234"}) : std::to_string(w.range(-100000, 100000)), "i");
        case 'h': return nul ? null("0Nh") : both(w.chance(0.1) ? w.pick(std::vector<std::string>{"32767", "-32767"}) : std::to_string(w.range(-3000, 3000)), "h");
        case 'u': { int v = (int)w.below(256); Cell c; c.lit = strf("0x%02x", v); c.text = std::to_string(v); return c; }
        case 'b': return both(w.chance(0.5) ? "true" : "false");
        case 'f': {
            if (nul) return null("0Nf");
            std::string lit;
            switch (w.below(6)) {
                case 0: lit = strf("%s%lld.%02lld", w.chance(0.5) ? "-" : "", (long long)w.below(1000), (long long)w.below(100)); break;
                case 1: lit = strf("%lld.%03lld", (long long)w.below(1000000), (long long)w.below(1000)); break;
                case 2: lit = strf("%s0.%lld", w.chance(0.5) ? "-" : "", (long long)w.range(1000000000000000, 99999999999999999)); break;
                case 3: lit = strf("%lld.%llde%lld", (long long)w.range(1, 9), (long long)w.range(0, 999999999), (long long)w.range(-30, 30)); break;
                case 4: lit = w.pick(std::vector<std::string>{"1.7976931348623157e308", "2.2250738585072014e-308", "0.1", "0.30000000000000004", "9007199254740993.0", "100000.0", "1234567.0", "0.0001", "0.5", "3.141592653589793", "123456789012345678.0"}); break;
                default: lit = strf("%lld.0", (long long)w.range(-100, 100));
            }
            Cell c;
            c.lit = lit;
            c.text = float_text(strtod(lit.c_str(), nullptr));
            return c;
        }
        case 's': {   // the expression is the place in the vector of all symbols
            if (nul) return null("0");
            if (many) { int k = (int)w.below(400); Cell c; c.lit = std::to_string(3 + plain.size() + (size_t)k); c.text = strf("m%d", k * 7); return c; }
            size_t k = w.below(plain.size() + 2);
            Cell c;
            c.lit = std::to_string(k + 1);
            c.text = k == 0 ? "two words" : k == 1 ? strf("sep%cin\"it", sep) : plain[k - 2];
            return c;
        }
        case 'x': {
            static const std::vector<std::string> t = {"x", "some text", "a longer text that does not fit into a word", "", "tail ", "12", "-"};
            Cell c;
            c.text = w.chance(0.3) ? strf("%c", sep) + w.pick(t) : w.chance(0.2) ? w.pick(t) + "\"" + w.pick(t) + "\"" : w.pick(t);
            c.lit = esc(c.text);
            return c;
        }
        case 'd': return nul ? null("0Nd") : both(ymd());
        case 't': return nul ? null("0Nt") : both(strf("%s%02lld:%02lld:%02lld.%03lld", w.chance(0.1) ? "-" : "", (long long)w.range(0, 23), (long long)w.below(60), (long long)w.below(60), (long long)w.range(1, 999)));
        case 'p': return nul ? null("0Np") : both(strf("%sD%02lld:%02lld:%02lld.%09lld", ymd().c_str(), (long long)w.below(24), (long long)w.below(60), (long long)w.below(60), (long long)w.below(1000000000)));
        default: return null("");
    }
}
static bool quotes(const std::string &t, char sep) { for (char c : t) if (c == sep || c == '"' || c == '\n' || c == '\r') return true; return false; }
static std::string quoted(const std::string &t) { std::string s = "\""; for (char c : t) { s += c; if (c == '"') s += '"'; } return s + "\""; }
struct Csv {
    std::vector<Col> cols;
    s64 n = 0;
    int period = 1, mode = 0, bad = -1, badkind = 0;
    char sep = ',';
    bool keep = true;
    std::string path, text;
    std::string sepx() const { return sep == ',' ? "" : sep == '\t' ? " '\\t'" : strf(" '%c'", sep); }
};
static std::string expr(const Csv &f, const Col &c) {
    std::string s;
    for (auto &x : c.base) s += " " + x.lit;
    s = c.ty == 's' ? "(at sp [" + s.substr(1) + "])" : c.ty == 'x' ? "(list" + s + ")" : "[" + s.substr(1) + "]";
    return "(take " + s + " " + std::to_string(f.n) + ")";
}
static std::string table(const Csv &f) {
    std::string nm, cs;
    for (auto &c : f.cols) { nm += (nm.empty() ? "" : " ") + c.name; cs += " " + expr(f, c); }
    return "(table [" + nm + "] (list" + cs + "))";
}
static std::string text(const Csv &f) {   // as write-csv writes it
    std::string s;
    for (size_t i = 0; i < f.cols.size(); i++) s += (i ? std::string(1, f.sep) : "") + f.cols[i].name;
    s += '\n';
    for (s64 r = 0; r < f.n; r++)
        for (size_t i = 0; i < f.cols.size(); i++) {
            const std::string &t = f.cols[i].base[(size_t)(r % f.period)].text;
            s += quotes(t, f.sep) ? quoted(t) : t;
            s += i + 1 < f.cols.size() ? f.sep : '\n';
        }
    return s;
}
static std::string other_text(Rng &w, Csv &f) {   // as some other program may
    std::string s;
    bool cr = w.chance(0.3), mixed = w.chance(0.1), hq = w.chance(0.1), notrail = w.chance(0.4);
    double pq = w.pick(std::vector<double>{0, 0.1, 1});
    if (f.bad >= 0) {   // what is to be noticed: a line that ends early, a quote that no other closes
        size_t at = (size_t)(f.bad % f.period), k = f.cols.size();
        bool q = false;
        for (auto &c : f.cols) q |= quotes(c.base[at].text, f.sep);
        if (f.badkind == 1 && !q) pq = 0;
        else { f.badkind = 0; if (f.cols[k - 2].base[at].text.empty()) f.bad = -1; }
    }
    auto end = [&]() { s += (mixed ? w.chance(0.5) : cr) ? "\r\n" : "\n"; };
    for (size_t i = 0; i < f.cols.size(); i++) s += (i ? std::string(1, f.sep) : "") + (hq ? "\"" + f.cols[i].name + "\"" : f.cols[i].name);
    end();
    for (s64 r = 0; r < f.n; r++) {
        size_t k = f.cols.size();
        if (r == f.bad && f.badkind == 0) k--;   // a field is missing
        for (size_t i = 0; i < k; i++) {
            const Col &c = f.cols[i];
            const std::string &t = c.base[(size_t)(r % f.period)].text;
            bool q = quotes(t, f.sep) || w.chance(pq);
            if (r == f.bad && f.badkind == 1 && i == 0) s += "\"" + t;   // a quote is not closed
            else s += q ? quoted(t) : t;
            if (i + 1 < k) s += f.sep;
        }
        if (r + 1 < f.n || !notrail || s.back() == '\n' || s.back() == f.sep) end();
    }
    return s;
}
}
SCENARIO(C17, "tables come back from text files as they were written, however they are written down, split and interrupted") {
    using namespace csv;
    policy_io();
    static std::vector<Csv> fs;
    fs.clear();
    int m = (int)w.range(1, 6);
    bool big = w.chance(0.06);
    if (big) m = 1;
    for (int k = 0; k < m; k++) {
        Csv f;
        f.mode = (int)w.below(10);   // 0-3 written and read, 4-7 given and read, 8 given with a fault, 9 written with failing calls or a crash
        f.sep = w.pick(std::vector<char>{',', ',', ';', '|', '\t'});
        f.path = strf("%s%d.csv", w.chance(0.2) ? "dir/f" : "f", k);
        int nc = big ? (int)w.range(1, 3) : (int)w.range(1, 8);
        f.n = big ? w.range(16000, 60000) : w.chance(0.1) ? w.range(1000, 4000) : w.chance(0.05) ? 0 : w.range(1, 60);
        f.period = (int)std::min<s64>(std::max<s64>(f.n, 1), w.range(1, big ? 200 : 60));
        static const char ty[] = "inhubfssxxdtp";
        for (int i = 0; i < nc; i++) {
            Col c;
            c.ty = ty[w.below(sizeof ty - 1)];
            c.name = w.pick(std::vector<std::string>{"a", "price", "Sym", "ts1"}) + std::to_string(i);
            bool many = big || w.chance(0.2);
            for (int r = 0; r < f.period; r++) c.base.push_back(cell(w, c.ty, f.sep, many));
            f.cols.push_back(c);
        }
        if (f.mode == 8 && f.n && nc > 1) { f.bad = (int)w.below((u64)f.n); f.badkind = (int)w.below(2); }
        if (f.mode >= 4 && f.mode <= 8) f.text = other_text(w, f);
        f.keep = op_keep();
        fs.push_back(f);
    }
    bool soft = w.chance(0.5), crash = w.chance(0.5), fails = w.chance(0.6);
    double p = w.pick(std::vector<double>{0.01, 0.1, 0.3});
    u64 fseed = w.next();
    std::string wk[3];
    for (auto &x : wk) x = big ? w.pick(std::vector<std::string>{"1", "2", "4", "8"}) : w.pick(std::vector<std::string>{"1", "1", "3"});
    describe("files=%d rows=%lld workers=%s,%s%s%s", m, (long long)fs[0].n, wk[0].c_str(), wk[1].c_str(), soft ? ", short transfers" : "", big ? ", big" : "");
    fs_mkdirs("dir");
    for (auto &f : fs) if (f.mode >= 4 && f.mode <= 8 && f.keep) fs_create(f.path, f.text);
    auto faults = [&](bool hard) {
        g_ff = FsFaults();
        if (soft) { g_ff.p_short_read = g_ff.p_short_write = 0.4; g_ff.p_eintr = 0.1; }
        if (!hard) return;
        Rng r(fseed);
        auto P = [&]() { return r.chance(0.5) ? p : 0; };
        if (fails) { g_ff.p_eio_w = P(); g_ff.p_enospc = P(); g_ff.p_open = P(); g_ff.p_close = P(); g_ff.p_mmap = P(); g_ff.p_stat = P(); }
        if (crash) g_ff.p_crash = p;
    };
    auto prepare = [&](Node &n) {
        std::string s = "[0Ns";
        n.must("(set sep (fn [x] (as 'symbol x)))");
        for (auto &x : plain) s += " " + x;
        for (int i = 0; i < 400; i++) s += strf(" m%d", i * 7);
        n.must("(set sq " + s + "])");
    };
    auto pool = [&](Node &n, const Csv &f) {   // the symbols the columns take theirs from
        n.must("(set sp (concat (take sq 1) (concat (sep \"two words\") (concat (sep " + esc(strf("sep%cin\"it", f.sep)) + ") (at sq (+ 1 (til " + std::to_string(plain.size() + 400) + ")))))))");
    };
    size_t next = 0;
    bool died = false;
    for (int node = 0; node < 3 && next < fs.size(); node++)
        on_node(node, [&]() {
            Node n(node);
            n.create({"-c", wk[0]});
            prepare(n);
            while (next < fs.size()) {
                Csv &f = fs[next++];
                if (!f.keep || (f.mode >= 4 && f.mode <= 8)) continue;
                pool(n, f);
                n.must("(set t " + table(f) + ")");
                std::string cmd = "(write-csv \"" + f.path + "\" t" + f.sepx() + ")";
                f.text = text(f);
                if (f.mode == 9) {   // a file that is there already
                    fs_create(f.path, "old\n1\n");
                    faults(true);
                    died = true;
                    g_ff.on = true;
                    bool ok = n.ok(cmd);
                    g_ff.on = false;
                    died = false;
                    std::string got = fs_read(f.path);
                    probe(ok ? 2 : 3);
                    if (ok && got != f.text) violation("not_written", "%s succeeds and leaves %.300s; it was to write %.300s", cmd.c_str(), got.c_str(), f.text.c_str());
                    if (!ok && got != "old\n1\n") violation("torn", "%s fails and leaves %.300s in place of what was there", cmd.c_str(), got.c_str());
                }
                faults(false);
                g_ff.on = soft;
                bool ok = n.ok(cmd);
                g_ff.on = false;
                if (!ok) violation("write_failed", "%s fails: %s", cmd.c_str(), n.fmt(cmd).c_str());
                std::string got = fs_read(f.path);
                probe(0);
                if (got != f.text) {
                    size_t i = 0;
                    while (i < got.size() && i < f.text.size() && got[i] == f.text[i]) i++;
                    i = i < 60 ? 0 : i - 60;
                    violation("written", "%s of %.300s writes ..%.200s; it was to write ..%.200s", cmd.c_str(), table(f).c_str(), got.substr(i).c_str(), f.text.substr(i).c_str());
                }
                n.must("(set t 0)");
            }
            n.a->destroy();
        });
    g_ff.on = false;
    if (died) {   // in the midst of a write
        Csv &f = fs[next - 1];
        std::string got = fs_read(f.path);
        probe(4);
        if (got != f.text && got != "old\n1\n") violation("torn", "the process died while writing %s and leaves %.300s in place of what was there", f.path.c_str(), got.c_str());
    }
    on_node(3, [&]() {
        Node n(3);
        n.create({"-c", wk[1]});
        prepare(n);
        for (auto &f : fs) {
            if (!f.keep) continue;
            if (f.mode == 9 || (f.mode < 4 && f.text.empty()) || fs_read(f.path).empty()) { if (f.mode < 4) continue; fs_create(f.path, f.mode == 9 ? f.text = text(f) : f.text); }
            pool(n, f);
            std::string cmd = "(read-csv " + types(f.cols) + " \"" + f.path + "\"" + f.sepx() + ")";
            int fds = node_fd_count(3);
            faults(false);
            if (f.mode == 9 && fails) { g_ff.p_open = g_ff.p_mmap = g_ff.p_stat = p; }
            g_ff.on = true;
            bool ok = n.ok("(set r " + cmd + ")");
            g_ff.on = false;
            if (node_fd_count(3) != fds) violation("file_left_open", "%s leaves a file open: %s", cmd.c_str(), node_fd_desc(3).c_str());
            int maps = 0;
            for (auto &x : g_maps) if (x.second.node == 3 && x.second.kind) maps++;
            if (maps) violation("file_left_mapped", "%s leaves the file mapped", cmd.c_str());
            if (f.mode == 9 && fails && !ok) { probe(5); continue; }
            if (f.bad >= 0) {
                probe(6);
                if (ok) violation("not_told", "%s gives a table; in line %d of %lld lines %s", cmd.c_str(), f.bad + 2, (long long)f.n + 1, f.badkind ? "a quote is not closed" : "a field is missing");
                continue;
            }
            if (!ok) violation("read_failed", "%s fails: %s; the file is %.300s", cmd.c_str(), n.fmt(cmd).c_str(), f.text.c_str());
            probe(1);
            std::string nm;
            for (auto &c : f.cols) nm += (nm.empty() ? "" : " ") + c.name;
            std::string names = n.evald("(key r)"), want = n.evald("[" + nm + "]");
            if (names != want) violation("names", "%s has the columns %s, the file has %s", cmd.c_str(), names.c_str(), want.c_str());
            for (auto &c : f.cols) {
                u64 h1 = 0, h2 = 0;
                std::string a = n.evald("(at r '" + c.name + ")", &h1, 400), b = n.evald(expr(f, c), &h2, 400);
                if (a != b || h1 != h2) violation("read", "column %s (%c) of %s is %.300s, the file has %.300s; the file is %.300s", c.name.c_str(), c.ty, cmd.c_str(), a.c_str(), b.c_str(), f.text.c_str());
            }
            n.must("(set r 0)");
        }
        n.a->destroy();
    });
}
