#include "gen.h"
#include <cmath>
static std::string S_(s64 v) { return std::to_string(v); }
std::vector<std::string> Gen::data() {
    std::vector<std::string> v;
    auto mod = [&](s64 m) { return "(% (* (til " + S_(n) + ") " + S_(r.pick(std::vector<s64>{1, 7, 31, 7919, 104729})) + ") " + S_(m) + ")"; };
    s64 card = r.pick(std::vector<s64>{2, 5, 50, 1000, n > 20000 ? n : 20000});
    v.push_back("(set a (- " + mod(card) + " " + S_(r.range(0, card / 2)) + "))");
    v.push_back("(set b " + mod(r.pick(std::vector<s64>{3, 17, 500})) + ")");
    v.push_back("(set f (as 'F64 " + mod(r.pick(std::vector<s64>{10, 1000, 40000})) + "))");
    v.push_back("(set i (as 'I32 " + mod(r.pick(std::vector<s64>{4, 300})) + "))");
    v.push_back("(set s (at [aa bb cc dd ee ff gg] " + mod(7) + "))");
    v.push_back("(set d (as 'DATE " + mod(30) + "))");
    v.push_back("(set ts (as 'TIMESTAMP " + mod(100000) + "))");
    v.push_back("(set h (as 'I16 " + mod(90) + "))");
    v.push_back("(set u (as 'U8 " + mod(100) + "))");
    v.push_back("(set c (> a " + S_(r.range(0, card)) + "))");
    v.push_back("(set nn (find (til " + S_(r.range(1, card)) + ") a))");          // integers with nulls
    v.push_back("(set fn (+ 0.0 nn))");
    // laid out in stretches, not evenly: groups that occur only in some rows, nulls only in some rows
    s64 cut = r.range(0, n), w1 = r.pick(std::vector<s64>{1, 5, 700, n / 3 + 1, n});
    bool rv = r.chance(0.5);
    v.push_back("(set bn " + std::string(rv ? "(reverse " : "") + "(find (til " + S_(cut > 0 ? cut : 1) + ") (til " + S_(n) + "))" + (rv ? ")" : "") + ")");
    v.push_back("(set bf (+ 0.0 bn))");
    v.push_back("(set bg (+ (% (til " + S_(n) + ") " + S_(r.range(1, 3)) + ") (* 3 (% (div (til " + S_(n) + ") " + S_(w1) + ") " + S_(r.range(1, 400)) + "))))");
    v.push_back("(set bi (as 'I32 (- bn " + S_(r.range(0, n)) + ")))");
    v.push_back("(set bt (as 'TIMESTAMP bn))");
    v.push_back("(set sy [aa bb cc dd ee ff gg hh])");
    v.push_back("(set e (enum 'sy s))");
    v.push_back("(set l (at (list [1 2] \"abc\" 'x 4 (list 1 'q)) " + mod(5) + "))");
    v.push_back("(set t (table [s a b f i d ts nn fn e l h bn bf bg bi bt] (list s a b f i d ts nn fn e l h bn bf bg bi bt)))");
    v.push_back("(set bm (at a (% (til " + S_(r.pick(std::vector<s64>{600, 1100, 1300, 2600})) + ") " + S_(n) + ")))");
    v.push_back("(set add3 (fn [x y] (let z (+ x 1)) (let z (+ z y)) (+ z 2)))");
    v.push_back("(set rec (fn [n] (let m n) (if (> n 0) (self (- n 1)) 0) m))");
    v.push_back("(set sel (fn [q] (select {v: (sum v) from: k by: s where: (> v q)})))");
    v.push_back("(set qt (table [b ts v w] (list (% (til 400) 17) (as 'TIMESTAMP (* 250 (til 400))) (til 400) (as 'F64 (til 400)))))");
    v.push_back("(set sm (at a (til 20)))");
    v.push_back("(set k (table [b s v] (list [0 1 2 3] (at [aa bb cc dd] (til 4)) [10 20 30 40])))");
    return v;
}
std::string Gen::query() {
    // sums of groups of 16-bit items wrap, and a running sum that meets the null pattern on its way stays null: how the rows are split then matters
    std::string q = query_();
    if (q.find("by:") != std::string::npos)
        for (size_t i; (i = q.find("(sum h)")) != std::string::npos; ) q.replace(i, 7, "(max h)");
    return q;
}
std::string Gen::query_() {
    static const std::vector<std::string> num = {"a", "b", "f", "i", "a", "b", "nn", "fn", "h", "bn", "bf", "bi", "bg"};
    static const std::vector<std::string> col = {"a", "b", "f", "i", "s", "d", "ts", "nn", "fn", "l", "h", "bn", "bf", "bi", "bt"};
    static const std::vector<std::string> any = {"a", "b", "f", "i", "s", "d", "ts", "h", "u", "nn", "fn", "e", "l", "bn", "bf", "bg", "bi", "bt"};
    static const std::vector<std::string> agg = {"sum", "min", "max", "count", "first", "last", "avg", "med", "dev"};
    static const std::vector<std::string> aggm = {"sum", "min", "max", "count", "first", "last", "avg", "dev"};   // med of thousands of groups is slow
    static const std::vector<std::string> aggx = {"sum", "min", "max", "count", "first", "last"};
    static const std::vector<std::string> ar = {"+", "-", "*", "%", "div"};
    static const std::vector<std::string> cmp = {"<", ">", "<=", ">=", "==", "!="};
    auto N = [&]() { return r.pick(num); };
    auto A = [&]() { return r.pick(any); };
    auto K = [&]() { return S_(r.range(-3, 40)); };
    auto pred = [&]() { return "(" + r.pick(cmp) + " " + N() + " " + K() + ")"; };
    auto val = [&]() -> std::string {
        switch (r.below(4)) {
            case 0: return N();
            case 1: return "(" + r.pick(ar) + " " + N() + " " + S_(r.range(1, 9)) + ")";
            case 2: return "(+ " + N() + " " + N() + ")";
            default: return "(" + r.pick(std::vector<std::string>{"neg", "reverse", "asc", "desc"}) + " " + N() + ")";
        }
    };
    auto C = [&]() { return r.pick(col); };
    auto big = [&]() { return std::string(r.chance(0.7) ? "bm" : "sm"); };
    switch (r.below(50)) {
        case 0: return "(" + r.pick(agg) + " " + N() + ")";
        case 1: return "(" + r.pick(ar) + " " + N() + " " + S_(r.range(1, 9)) + ")";
        case 2: return "(+ (* " + N() + " 2) " + N() + ")";
        case 3: return "(" + r.pick(cmp) + " " + N() + " " + N() + ")";
        case 4: return "(where " + pred() + ")";
        case 5: return "(and " + pred() + " " + pred() + ")";
        case 6: return "(or " + pred() + " " + pred() + ")";
        case 7: return "(" + r.pick(std::vector<std::string>{"asc", "desc", "iasc", "idesc", "rank", "reverse", "distinct"}) + " " + A() + ")";
        case 8: return "(filter " + A() + " " + pred() + ")";
        case 9: return "(at " + A() + " (where " + pred() + "))";
        case 10: return "(group " + r.pick(std::vector<std::string>{"a", "b", "s", "i", "bg"}) + ")";
        case 11: return "(find " + r.pick(std::vector<std::string>{"a", "b"}) + " sm)";
        case 12: return "(in " + r.pick(std::vector<std::string>{"a", "b"}) + " sm)";
        case 13: return "(" + r.pick(agg) + " " + val() + ")";
        case 14: return "(select {x: (" + r.pick(aggx) + " " + N() + ") y: (" + r.pick(aggm) + " " + N() + ") from: t by: " + r.pick(std::vector<std::string>{"s", "b", "i", "d", "a", "bg", "bg"}) + "})";
        case 15: return "(select {x: (" + r.pick(aggx) + " " + N() + ") from: t by: " + r.pick(std::vector<std::string>{"s", "b", "i", "bg"}) + " where: " + pred() + "})";
        case 16: return "(select {x: " + N() + " s: s from: t where: " + pred() + "})";
        case 17: return "(select {x: " + val() + " from: t where: (and " + pred() + " (== s 'aa))})";
        case 18: return "(select {from: t by: {s: s b: b} x: (" + r.pick(aggx) + " " + N() + ") c: (count a)})";
        case 19: return "(update {a: (+ a 1) from: t where: " + pred() + "})";
        case 20: return "(xasc t '" + r.pick(std::vector<std::string>{"a", "b", "s", "f"}) + ")";
        case 21: return "(xdesc t '" + r.pick(std::vector<std::string>{"a", "b", "s", "f"}) + ")";
        case 22: return "(left-join [b s] t k)";
        case 23: return "(inner-join [b s] (take t 3000) k)";
        case 24: return "(pmap (fn [x] (+ x 1)) sm)";
        case 25: return "(pmap (fn [x] (sum (+ (til (+ 3 (% (* x x) 50))) x))) sm)";
        case 26: return "(pmap (fn [x] (list x s (as 'SYMBOL x))) sm)";
        case 27: return "(as '" + r.pick(std::vector<std::string>{"F64", "I32", "SYMBOL", "DATE", "I64"}) + " " + r.pick(std::vector<std::string>{"a", "b", "i"}) + ")";
        case 28: return "(distinct " + C() + ")";
        case 29: return "(concat " + r.pick(std::vector<std::string>{"a a", "s s", "f f"}) + ")";
        case 30: return "(xbar " + r.pick(std::vector<std::string>{"a", "b", "i"}) + " " + S_(r.range(2, 9)) + ")";
        case 31: return "(within " + r.pick(std::vector<std::string>{"a", "b"}) + " [2 9])";
        case 32: return "(pmap (fn [x] (select {v: (sum v) from: k by: s where: (> v x)})) (at sm (til 4)))";
        case 33: return "(pmap add3 " + big() + " " + S_(r.below(9)) + ")";
        case 34: return "(pmap (fn [x] (let y (* x 2)) (let z (+ y 1)) (- (* 3 z) y)) " + big() + ")";
        case 35: return "(pmap (fn [x] (rec (% (+ x 3) 9))) " + big() + ")";
        case 36: return "((fn [q] (let y (+ q 5)) (pmap (fn [x] (+ (* x y) q)) " + big() + ")) " + S_(r.below(50)) + ")";
        case 37: return r.chance(0.5) ? "(pmap (fn [x] (sum (pmap (fn [y] (+ x y)) sm))) (at bm (til 600)))" : "(pmap (fn [x] (sum (pmap (fn [y] (+ x y)) " + big() + "))) (at bm (til " + S_(r.pick(std::vector<s64>{3, 40})) + ")))";
        case 38: return "(pmap (fn [x] (at (list x 'a (as 'F64 x) \"s\" [1 2]) (% (+ x 100) 5))) " + big() + ")";
        case 39: return "(try (pmap (fn [x] (if (> x " + S_(r.range(0, 60)) + ") (+ x 'zz) (add3 x x))) " + big() + ") (fn [e] (list e 7)))";
        case 40: return "(pmap " + r.pick(std::vector<std::string>{"count", "first", "sum", "reverse", "distinct"}) + " (map (fn [x] (til (% (+ x 100) 4))) " + big() + "))";
        case 41: return "(select {x: (" + r.pick(std::vector<std::string>{"first", "last", "first", "last", "count"}) + " " + C() + ") y: (" + r.pick(std::vector<std::string>{"first", "last"}) + " " + C() + ") from: t by: " + r.pick(std::vector<std::string>{"s", "b", "i", "a", "bg"}) + (r.chance(0.4) ? " where: " + pred() : std::string()) + "})";
        case 42: return "(select {x: (" + r.pick(agg) + " " + N() + ") from: t where: (< b " + r.pick(std::vector<std::string>{"-1", "1", "9000"}) + ") by: " + r.pick(std::vector<std::string>{"s", "b"}) + "})";
        case 43: return "(select {x: (" + r.pick(aggm) + " " + val() + ") z: (" + r.pick(aggx) + " " + C() + ") from: t by: {" + r.pick(std::vector<std::string>{"s: s i: i", "a: a b: b", "d: d s: s b: b", "i: i b: b", "s: s bg: bg", "bg: bg"}) + "}})";
        case 44: return "(asof-join [b ts] t qt)";
        case 45: return "(" + r.pick(std::vector<std::string>{"window-join", "window-join1"}) + " [b ts] (list (- ts " + S_(r.range(1, 3000)) + ") (+ ts " + S_(r.range(0, 2000)) + ")) t qt {x: (" + r.pick(aggx) + " v) y: (" + r.pick(aggm) + " w)})";
        case 46: return "(update {a: (" + r.pick(aggx) + " a) from: t by: " + r.pick(std::vector<std::string>{"s", "b"}) + "})";
        case 47: return "(" + r.pick(std::vector<std::string>{"bin", "binr"}) + " (til 40) " + r.pick(std::vector<std::string>{"a", "b"}) + ")";
        case 48: return "(" + r.pick(std::vector<std::string>{"find", "in", "sect", "except", "union"}) + " " + r.pick(std::vector<std::string>{"a (take b 300)", "b (take nn 300)", "s (take s 9)", "ts (take ts 300)", "bn (take bn 300)", "(reverse bf) (take bf 300)", "f (take f 300)"}) + ")";
        default: return "(xrank " + r.pick(std::vector<std::string>{"a", "b"}) + " " + S_(r.range(2, 9)) + ")";
    }
}
std::string Gen::bad_query() {
    static const std::vector<std::string> un = {"til", "neg", "sum", "reverse", "asc", "distinct", "count", "first", "iasc", "key", "value", "where", "avg", "max", "type", "raze"};
    static const std::vector<std::string> bi = {"+", "-", "*", "<", "==", "at", "take", "concat", "find", "in", "as", "filter", "div", "%", "xbar", "and", "or"};
    static const std::vector<std::string> item = {"5", "9", "3", "[1 2 3]", "(til 70)", "(list 1 2)", "'aa", "\"text\"", "[aa bb]", "0Nl", "2.5", "(list 'q \"z\" (til 5))", "2024.01.01", "{a: 1}", "(list)"};
    auto lst = [&](int lo, int hi) {   // mostly one kind of items, one that does not fit somewhere
        std::string o = "(list";
        int k = (int)r.range(lo, hi), bad = (int)r.below((u64)k + 2);
        std::string u = r.pick(item);
        for (int i = 0; i < k; i++) o += " " + (i == bad || r.chance(0.1) ? r.pick(item) : u);
        return o + ")";
    };
    switch (r.below(18)) {
        case 10: return "(pmap " + r.pick(un) + " " + lst(2, 24) + ")";
        case 11: return "(map " + r.pick(un) + " " + lst(2, 24) + ")";
        case 12: { int k = (int)r.range(2, 20); return "(" + std::string(r.chance(0.5) ? "map " : "pmap ") + r.pick(bi) + " " + lst(k, k) + " " + (r.chance(0.7) ? lst(k, k) : r.pick(item)) + ")"; }
        case 13: return "(pmap (fn [x] (" + r.pick(un) + " x)) " + lst(2, 24) + ")";
        case 14: { int k = (int)r.range(2, 20); return "(pmap (fn [x y] (list y (" + r.pick(bi) + " x y))) " + lst(k, k) + " " + lst(k, k) + ")"; }
        case 15: return "(" + r.pick(std::vector<std::string>{"fold", "scan", "fold-left", "fold-right", "map-left", "map-right", "scan-left", "scan-right"}) + " " + r.pick(bi) + " " + lst(2, 8) + (r.chance(0.5) ? " " + lst(2, 8) : std::string()) + ")";
        case 16: return "(" + r.pick(bi) + " " + r.pick(item) + " " + r.pick(item) + ")";
        case 17: return "(" + r.pick(un) + " " + r.pick(item) + ")";
        case 0: return "(pmap (fn [x] (if (> x " + S_(r.range(-5, 5)) + ") (raise \"bad\") (list x x))) sm)";
        case 1: return "(pmap (fn [x] (+ x \"abc\" 'q)) sm)";
        case 2: return "(+ a s)";
        case 3: return "(select {x: (sum nosuch) from: t by: s})";
        case 4: return "(try (pmap (fn [x] (if (== 0 (% x 2)) (raise (list x \"e\")) (til 10))) sm) (fn [e] (list 1 e)))";
        case 5: return "(+ a (at a (til 5)))";
        case 6: return "(pmap (fn [x] (let y (list x x)) (if (> x 30) (raise \"bad\") (nosuch y))) bm)";
        case 7: return "((fn [q] (let y (list q q)) (list (+ y 1) (+ y 'sym) y)) 4)";
        case 8: return "(list (til 9) (+ 'a 1) (til 5))";
        default: return "(pmap (fn [x] (nosuchfn x)) sm)";
    }
}

// Floats computed in another order of the same terms differ in their last digits: numbers with a fraction are compared with a relative tolerance.
bool same_value(const std::string &a, const std::string &b) {
    size_t i = 0, j = 0;
    auto num = [](char c) { return (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e'; };
    while (i < a.size() && j < b.size()) {
        if (a[i] == b[j] && !num(a[i])) { i++; j++; continue; }
        if (!num(a[i]) || !num(b[j])) return false;
        size_t i2 = i, j2 = j;
        while (i2 < a.size() && num(a[i2])) i2++;
        while (j2 < b.size() && num(b[j2])) j2++;
        std::string x = a.substr(i, i2 - i), y = b.substr(j, j2 - j);
        if (x != y) {
            if (x.find_first_of(".e") == std::string::npos && y.find_first_of(".e") == std::string::npos) return false;
            double p = strtod(x.c_str(), nullptr), q = strtod(y.c_str(), nullptr), m = std::max(std::max(std::fabs(p), std::fabs(q)), 1.0);
            if (!(std::fabs(p - q) <= 1e-7 * m)) return false;
        }
        i = i2; j = j2;
    }
    return i == a.size() && j == b.size();
}
