// Parts shared by the scenarios that use connections.
#pragma once
#include "scen.h"
#include <algorithm>
static const s64 MS = 1000000, SEC = 1000000000;
struct Server {
    int node = 0, port = 5101, thr = -1;
    bool up = false, done = false;
    int rc = -1;
    std::vector<std::string> args = {"-c", "1"};
};
void policy_io();
void start_server(Server &s, std::vector<std::string> defs, std::function<void(Node &)> pre = nullptr, std::function<void(Node &)> post = nullptr);
std::string esc(const std::string &s);                     // text as a string literal
std::string payload_expr(Rng &w, int size_class);          // expression with a value of some type
std::string conn_open(Node &n, int port, int tries, const char *var = "h");  // "" or the handle
// a peer speaking the wire protocol on its own, independent of the program
struct Raw {
    int fd = -1;
    bool eof = false;
    bool open(int port, bool handshake = true);
    void close();
    static std::string frame(const std::string &payload, int msgtype);
    static std::string str(const std::string &s);          // serialised text
    static std::string i64(s64 v);
    static std::string i64v(const std::vector<s64> &v);
    static std::string sym(const std::string &s);
    static std::string list(const std::vector<std::string> &v);
    bool send(const std::string &b);
    bool recv(int *type, std::string *payload, s64 timeout);   // one message
    bool ask(const std::string &src, std::string *payload, s64 timeout = 20 * SEC);  // synchronous text request
    static bool ints(const std::string &payload, std::vector<s64> *v);  // I64 atom or vector
};
int benign_net(Rng &w);     // sets faults that delay and cut but break nothing; returns the largest payload size class
extern const std::vector<std::string> base_defs;
