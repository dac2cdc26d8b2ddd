// Values: nothing that is computed changes a value it is computed from, and a change through one name is seen through no other.
#include "scen.h"
namespace val {
struct G {
    Rng &w;
    s64 n;
    bool small;
    std::string v(const char *k, int c) { return k + std::to_string(w.below((u64)c)); }
    std::string k() { return std::to_string(w.range(-9, 40)); }
    std::string lit() {
        if (!small || w.chance(0.3)) return strf("(+ %lld (* %lld (til %lld)))", (long long)w.range(0, 5), (long long)w.range(-2, 3), (long long)n);
        std::string s;
        for (s64 i = 0; i < n; i++) s += (i ? " " : "") + std::to_string(w.range(-5, 30));
        return "[" + s + "]";
    }
    std::string ar() { return w.pick(std::vector<std::string>{"+", "-", "*", "+", "-", "%", "div", "xbar"}); }
    std::string idx() { return std::to_string(w.below((u64)n)); }
    std::string num(int d) {
        if (d <= 0 || w.chance(0.2)) return w.chance(0.8) ? v("n", 5) : lit();
        d--;
        switch (w.below(24)) {
            case 0: case 1: return "(" + ar() + " " + num(d) + " " + (w.chance(0.5) ? k() : num(d)) + ")";
            case 2: return "(" + ar() + " " + k() + " " + num(d) + ")";
            case 3: return "(neg " + num(d) + ")";
            case 4: return "(" + w.pick(std::vector<std::string>{"reverse", "asc", "desc", "floor", "ceil", "round", "iasc", "rank"}) + " " + num(d) + ")";
            case 5: return "(at " + lst(d) + " " + std::to_string(w.below(3)) + ")";
            case 6: return "(at " + dct(d) + " '" + (w.chance(0.5) ? "a" : "b") + ")";
            case 7: return "(at " + tab(d) + " '" + (w.chance(0.5) ? "a" : "b") + ")";
            case 8: return "(" + w.pick(std::vector<std::string>{"fold", "fold-left", "fold-right"}) + " " + w.pick(std::vector<std::string>{"+", "-", "*"}) + " " + k() + " " + lst(d) + ")";
            case 9: return "(fold + " + lst(d) + ")";
            case 10: return "(" + std::string(w.chance(0.5) ? "first " : "last ") + lst(d) + ")";
            case 11: return "((fn [p q] (let z (+ p q)) (let z (neg z)) (+ z p)) " + num(d) + " " + num(d) + ")";
            case 12: return "((fn [p] (alter 'p " + w.pick(std::vector<std::string>{"+", "*", "-"}) + " " + k() + ") p) " + num(d) + ")";
            case 13: return "((fn [p] (alter 'p set " + idx() + " " + k() + ") p) " + num(d) + ")";
            case 14: return "((fn [p] (let q p) (alter 'q + " + k() + ") (+ p q)) " + num(d) + ")";
            case 15: return "(alter " + num(d) + " + " + (w.chance(0.5) ? idx() + " " : "") + k() + ")";
            case 16: return "(alter " + num(d) + " set " + idx() + " " + k() + ")";
            case 17: return "(try (do " + num(d) + " " + (w.chance(0.3) ? "(+ 'q 1)" : num(d)) + ") (fn [e] " + num(0) + "))";
            case 18: return "(at (select {x: (" + ar() + " " + (w.chance(0.5) ? "a b" : "a 3") + ") y: a from: " + tab(d) + "}) 'x)";
            case 19: return "(" + v("f", 3) + ")";
            case 20: return "(apply + " + num(d) + " " + num(d) + ")";
            case 21: return "(as '" + w.pick(std::vector<std::string>{"I64", "F64", "I32", "I64"}) + " " + num(d) + ")";
            case 22: return "(concat (take " + num(d) + " " + std::to_string(n / 2) + ") (take " + num(d) + " " + std::to_string(n - n / 2) + "))";
            default: return "(if (> (first " + num(d) + ") " + k() + ") " + num(d) + " " + num(d) + ")";
        }
    }
    std::string fun1() { return w.pick(std::vector<std::string>{"neg", "reverse", "(fn [x] (+ x 1))", "(fn [x] (alter 'x + 1) x)", "(fn [x] (let y x) (alter 'y * 2) (- y x))", "(fn [x] (alter 'x set 0 7) x)", "first", "asc", "(fn [x] x)"}); }
    std::string fun2() { return w.pick(std::vector<std::string>{"+", "-", "*", "(fn [x y] (+ x y))", "(fn [x y] (alter 'x + y) x)", "(fn [x y] (let z (neg x)) (- z y))"}); }
    std::string lst(int d) {
        if (d <= 0 || w.chance(0.2)) return v("l", 4);
        d--;
        switch (w.below(18)) {
            case 0: return "(list " + num(d) + " " + num(d) + " " + num(d) + ")";
            case 1: { std::string x = v("n", 5); return "(list " + x + " " + x + " " + num(d) + ")"; }
            case 2: case 3: return "(" + std::string(w.chance(0.5) ? "map " : "pmap ") + fun1() + " " + lst(d) + ")";
            case 4: return "(" + std::string(w.chance(0.5) ? "map " : "pmap ") + fun2() + " " + lst(d) + " " + lst(d) + ")";
            case 5: return w.chance(0.5) ? "(map-left " + fun2() + " " + lst(d) + " " + k() + ")" : "(map-right " + fun2() + " " + k() + " " + lst(d) + ")";
            case 6: return "(neg " + lst(d) + ")";
            case 7: return "(" + ar() + " " + (w.chance(0.5) ? k() + " " + lst(d) : lst(d) + " " + k()) + ")";
            case 8: return "(" + ar() + " " + lst(d) + " " + lst(d) + ")";
            case 9: return "(" + ar() + " " + (w.chance(0.5) ? num(d) + " " + lst(d) : lst(d) + " " + num(d)) + ")";
            case 10: return "(value " + (w.chance(0.5) ? dct(d) : tab(d)) + ")";
            case 11: return "(reverse " + lst(d) + ")";
            case 12: return "(scan " + w.pick(std::vector<std::string>{"+", "-"}) + " " + lst(d) + ")";
            case 13: return "(alter " + lst(d) + " + " + std::to_string(w.below(3)) + " " + k() + ")";
            case 14: return "(alter " + lst(d) + " set " + std::to_string(w.below(3)) + " " + num(d) + ")";
            case 15: return "(modify " + lst(d) + " + (list " + std::to_string(w.below(3)) + " " + idx() + ") " + k() + ")";
            case 16: return "(concat (take " + lst(d) + " 2) (enlist " + num(d) + "))";
            default: return "((fn [p] (alter 'p + " + std::to_string(w.below(3)) + " " + k() + ") (map neg p)) " + lst(d) + ")";
        }
    }
    std::string dct(int d) {
        if (d <= 0 || w.chance(0.3)) return v("d", 3);
        d--;
        switch (w.below(7)) {
            case 0: case 1: return "(dict [a b] (list " + num(d) + " " + num(d) + "))";
            case 2: return "(alter " + dct(d) + " + '" + (w.chance(0.5) ? "a " : "b ") + k() + ")";
            case 3: return "(alter " + dct(d) + " set '" + (w.chance(0.5) ? "a " : "c ") + num(d) + ")";
            case 4: return "(modify " + dct(d) + " + (list 'a " + idx() + ") " + k() + ")";
            case 5: return "(concat (dict [a] (list " + num(d) + ")) (dict [b] (list " + num(d) + ")))";
            default: return "(dict [a b c] " + lst(d) + ")";
        }
    }
    std::string tab(int d) {
        if (d <= 0 || w.chance(0.3)) return v("t", 3);
        d--;
        switch (w.below(11)) {
            case 0: return "(table [a b] (list " + num(d) + " " + num(d) + "))";
            case 1: { std::string x = v("n", 5); return "(table [a b] (list " + x + " " + x + "))"; }
            case 2: return "(select {a: (" + ar() + " a " + k() + ") b: b from: " + tab(d) + "})";
            case 3: return "(select {a: b b: a from: " + tab(d) + "})";
            case 4: return "(update {a: (" + ar() + " a " + k() + ") from: " + tab(d) + (w.chance(0.5) ? " where: (> b " + k() + ")" : "") + "})";
            case 5: return "(update {" + (w.chance(0.5) ? "b" : v("c", 3)) + ": (neg a) from: " + tab(d) + "})";
            case 6: return "(" + std::string(w.chance(0.5) ? "xasc " : "xdesc ") + tab(d) + " 'a)";
            case 7: return "(alter " + tab(d) + " " + w.pick(std::vector<std::string>{"+", "*"}) + " '" + (w.chance(0.5) ? "a " : "b ") + k() + ")";
            case 8: return "(take (insert " + tab(d) + " (list " + k() + " " + k() + ")) " + std::to_string(-n) + ")";
            case 9: return "(take (upsert " + tab(d) + " 1 (list " + k() + " " + k() + ")) " + std::to_string(n) + ")";
            default: return "(select {from: " + tab(d) + (w.chance(0.3) ? " where: (> a " + k() + ")" : "") + "})";
        }
    }
    std::string expr(int d) { switch (w.below(5)) { case 0: return num(d); case 1: case 2: return lst(d); case 3: return dct(d); default: return tab(d); } }
    // changes one variable; its name is left in x
    std::string change(std::string &x) {
        switch (w.below(25)) {
            case 0: case 1: x = v("n", 5); return "(set " + x + " " + num(2) + ")";
            case 2: case 3: x = v("l", 4); return "(set " + x + " " + lst(2) + ")";
            case 4: x = v("d", 3); if (w.chance(0.2)) { std::string t = v("d", 3); x = "kd"; return "(set kd (key " + t + "))"; } return "(set " + x + " " + (w.chance(0.15) ? "(dict (take kd 2) (list " + num(1) + " " + num(1) + "))" : dct(2)) + ")";
            case 5: x = v("t", 3); if (w.chance(0.2)) { std::string t = v("t", 3); x = "kt"; return "(set kt (key " + t + "))"; } return "(set " + x + " " + (w.chance(0.15) ? "(table (take kt 2) (list " + num(1) + " " + num(1) + "))" : tab(2)) + ")";
            case 6: x = v("f", 3); return "(set " + x + " (fn [] " + lit() + "))";
            case 7: case 8: x = v("n", 5); return "(alter '" + x + " " + w.pick(std::vector<std::string>{"+", "-", "*"}) + " " + (w.chance(0.5) ? idx() + " " + k() : w.chance(0.5) ? num(1) : k()) + ")";
            case 9: x = v("n", 5); return "(alter '" + x + " set " + idx() + " " + k() + ")";
            case 10: x = v("l", 4); return "(alter '" + x + " + " + std::to_string(w.below(3)) + " " + (w.chance(0.5) ? k() : num(1)) + ")";
            case 11: x = v("l", 4); return "(alter '" + x + " set " + std::to_string(w.below(3)) + " " + num(1) + ")";
            case 12: x = v("l", 4); return "(modify '" + x + " " + w.pick(std::vector<std::string>{"+ ", "* ", "set "}) + "(list " + std::to_string(w.below(3)) + " " + idx() + ") " + k() + ")";
            case 13: x = v("d", 3); return "(alter '" + x + " + '" + (w.chance(0.5) ? "a " : "b ") + (w.chance(0.5) ? k() : num(1)) + ")";
            case 14: x = v("d", 3); return "(alter '" + x + " set '" + (w.chance(0.5) ? "a " : "b ") + num(1) + ")";
            case 15: x = v("d", 3); return "(modify '" + x + " " + w.pick(std::vector<std::string>{"+ ", "set "}) + "(list '" + (w.chance(0.5) ? "a " : "b ") + idx() + ") " + k() + ")";
            case 16: x = v("t", 3); return "(alter '" + x + " + '" + (w.chance(0.5) ? "a " : "b ") + k() + ")";
            case 17: x = v("t", 3); return "(update {a: (+ a " + k() + ") from: '" + x + (w.chance(0.5) ? " where: (> b " + k() + ")" : "") + "})";
            case 18: x = v("t", 3); return w.chance(0.5) ? "(insert '" + x + " (list " + k() + " " + k() + "))" : "(upsert '" + x + " 1 (list " + k() + " " + k() + "))";
            case 19: x = v("t", 3); return w.chance(0.5) ? "(update {" + v("c", 3) + ": (+ a " + k() + ") from: '" + x + "})" : "(alter '" + x + " set '" + v("c", 3) + " " + num(1) + ")";
            case 20: x = v("d", 3); return "(alter '" + x + " set '" + v("c", 3) + " " + num(1) + ")";
            case 21: x = v("t", 3); return "(set " + x + " " + v("t", 3) + ")";
            case 22: x = v("d", 3); return "(set " + x + " " + v("d", 3) + ")";
            case 23: x = v("l", 4); return "(set " + x + " " + v("l", 4) + ")";
            default: x = v("n", 5); return "(set " + x + " " + v("n", 5) + ")";
        }
    }
};
}
SCENARIO(C22, "values are not changed by what is computed from them") {
    using namespace val;
    sim_draw_policy(true);
    bool small = w.chance(0.75);
    s64 n = small ? w.range(2, 7) : w.pick(std::vector<s64>{16384, 17001, 20480});
    int workers = (int)w.range(1, 6), m = small ? (int)w.range(8, 40) : (int)w.range(4, 12);
    G g{w, n, small};
    std::vector<std::string> init, names;
    for (int i = 0; i < 5; i++) init.push_back(strf("(set n%d ", i) + (i == 3 ? "(as 'F64 " : i == 4 ? "(as 'I32 " : "") + g.lit() + (i >= 3 ? "))" : ")"));
    for (int i = 0; i < 4; i++) init.push_back(strf("(set l%d (list %s %s %s))", i, g.v("n", 3).c_str(), i ? g.v("n", 5).c_str() : g.lit().c_str(), i ? g.v("n", 5).c_str() : g.lit().c_str()));
    for (int i = 0; i < 3; i++) init.push_back(strf("(set d%d (dict [a b] (list %s %s)))", i, g.v("n", 5).c_str(), i ? g.v("n", 5).c_str() : g.lit().c_str()));
    for (int i = 0; i < 3; i++) init.push_back(strf("(set t%d (table [a b] (list %s %s)))", i, g.v("n", 5).c_str(), i ? g.v("n", 5).c_str() : g.lit().c_str()));
    init.push_back("(set kt (key t0))");
    init.push_back("(set kd (key d0))");
    for (int i = 0; i < 3; i++) init.push_back(strf("(set f%d (fn [] %s))", i, g.lit().c_str()));
    for (auto &s : init) names.push_back(s.substr(5, 2));
    struct Op { std::string src, x; bool keep; int hold; };
    std::vector<Op> ops;
    for (int i = 0; i < m; i++) {
        Op o;
        if (w.chance(0.45)) o.src = g.expr(3); else o.src = g.change(o.x);
        o.hold = w.chance(0.4) ? (int)w.range(1, 9) : 0;
        o.keep = op_keep();
        if (o.src.size() > 1500) o.src = o.x = "";
        if (o.src.empty()) o.src = "(+ n0 1)";
        ops.push_back(o);
    }
    describe("workers=%d items=%lld: ", workers, (long long)n);
    for (auto &o : ops) describe("%.50s; ", o.src.c_str());
    auto look = [](const std::string &x) { return x[0] == 'f' ? "(" + x + ")" : x; };
    struct Held { void *o; u64 h; std::string src; int left; };
    std::vector<u64> res(ops.size());
    std::vector<std::string> txt(ops.size());
    std::vector<std::vector<u64>> state(ops.size());
    on_node(0, [&]() {
        Node p(0);
        p.create({"-c", std::to_string(workers)});
        for (auto &s : init) p.must(s);
        std::vector<u64> now(names.size());
        std::vector<Held> held;
        auto scan = [&](std::vector<u64> &r) { for (size_t j = 0; j < names.size(); j++) p.eval(look(names[j]), &r[j], 80); };
        scan(now);
        auto hcheck = [&](Held &h, const std::string &when) {
            u64 x;
            std::string c = p.canon(h.o, &x, 300);
            if (x != h.h) violation("held_changed", "the value %s gave, still in use, has changed to %.200s after %s", h.src.c_str(), c.c_str(), when.c_str());
        };
        for (size_t i = 0; i < ops.size(); i++) {
            Op &o = ops[i];
            if (!o.keep) continue;
            echo(o.src);
            void *r = p.a->eval(o.src.c_str());
            txt[i] = p.is_err(r) ? (res[i] = 0, "ERR") : p.canon(r, &res[i], 300);
            probe(p.is_err(r) ? 1 : 0);
            std::vector<u64> next(names.size());
            scan(next);
            for (size_t j = 0; j < names.size(); j++)
                if (next[j] != now[j] && names[j] != o.x) violation(o.x.empty() ? "operand_changed" : "other_changed", "%s, which changes %s, has changed %s: now it is %.200s", o.src.c_str(), o.x.empty() ? "nothing" : ("only " + o.x).c_str(), names[j].c_str(), p.eval(look(names[j]), nullptr, 200).c_str());
            now = state[i] = next;
            for (auto &h : held) hcheck(h, o.src);
            if (o.hold && txt[i] != "ERR") held.push_back({r, res[i], o.src, o.hold});
            else p.a->drop(r);
            for (size_t j = 0; j < held.size();) {
                if (--held[j].left > 0) { j++; continue; }
                p.a->drop(held[j].o);
                held[j] = held.back();
                held.pop_back();
            }
            if (o.x.empty()) {   // once more: the same
                u64 h;
                std::string c = p.eval(o.src, &h, 300);
                if (c == "ERR") h = 0;
                if (h != res[i]) violation("not_repeatable", "%s gives %.200s at first and %.200s then", o.src.c_str(), txt[i].c_str(), c.c_str());
                scan(next);
                for (size_t j = 0; j < names.size(); j++) if (next[j] != now[j]) violation("operand_changed", "%s has changed %s", o.src.c_str(), names[j].c_str());
            }
        }
        for (auto &h : held) p.a->drop(h.o);
        if (op_keep()) p.a->destroy();
    });
    // the same where no two variables share anything
    on_node(1, [&]() {
        Node p(1);
        p.create({"-c", "1"});
        auto own = [&](const std::string &x) { if (x[0] != 'f') p.must("(set " + x + " (de (ser " + x + ")))"); };
        for (auto &s : init) p.must(s);
        for (auto &x : names) own(x);
        for (size_t i = 0; i < ops.size(); i++) {
            Op &o = ops[i];
            if (!o.keep) continue;
            u64 h;
            std::string c = p.eval(o.src, &h, 300);
            if (c == "ERR") h = 0;
            probe(2);
            if (h != res[i]) violation("sharing_matters", "%s gives %.250s where variables share their values, %.250s where they do not", o.src.c_str(), txt[i].c_str(), c.c_str());
            if (!o.x.empty()) own(o.x);
            for (size_t j = 0; j < names.size(); j++) {
                p.eval(look(names[j]), &h, 200);
                if (h != state[i][j]) violation("sharing_matters", "after %s the value of %s depends on whether variables share their values; where they do not it is %.250s", o.src.c_str(), names[j].c_str(), p.eval(look(names[j]), nullptr, 250).c_str());
            }
        }
    });
}
