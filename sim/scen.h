// Common parts of the scenarios.
#pragma once
#include "sim.h"
#include "simio.h"
#include "shim.h"
extern NodeApi *node_api[];
struct Scenario { const char *id; const char *what; void (*run)(Rng &w); };
extern std::vector<Scenario> &scenarios();
struct RegScen { RegScen(const char *id, const char *what, void (*f)(Rng &)) { scenarios().push_back({id, what, f}); } };
#define SCENARIO(ID, WHAT) static void scen_##ID(Rng &w); static RegScen reg_##ID(#ID, WHAT, scen_##ID); static void scen_##ID(Rng &w)

// operation filter used by the minimiser: true when operation i of the workload is to be executed
bool op_keep();
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// object types of the program (public in its header)
enum { T_LIST = 0, T_ERR = 127 };

void echo(const std::string &s);
struct Node {
    int k;
    NodeApi *a;
    std::vector<std::string> args;
    int thr = -1;
    explicit Node(int k_) : k(k_), a(node_api[k_]) {}
    void create(std::vector<std::string> args);   // on the node's own thread
    // values
    std::string canon(void *o, u64 *h = nullptr, long long lim = 1500);
    std::string eval(const std::string &src, u64 *h = nullptr, long long lim = 1500);  // canonical text, "ERR" on error
    std::string deep(void *o, u64 *h = nullptr, long long lim = 1500);
    std::string evald(const std::string &src, u64 *h = nullptr, long long lim = 1500);
    bool ok(const std::string &src);              // evaluate and drop; false when it is an error
    void must(const std::string &src);            // set-up step: an error here is a harness error
    std::string fmt(const std::string &src);
    bool is_err(void *o) { return a->type(o) == T_ERR; }
};
// run body on a fresh thread of the node and wait for it
void on_node(int k, std::function<void()> body);
int spawn_node(int k, std::function<void()> body);   // returns thread id, marks it the node's main thread
void wait_thr(int id);
bool wait_thr_for(int id, s64 ns);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
u64 hash_str(const std::string &);
bool same_value(const std::string &a, const std::string &b);   // canonical texts equal but for the last digits of floats
// linked-in expression generators (gen.cpp)
