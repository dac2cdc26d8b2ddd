#include "scen.h"
#include <algorithm>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>

extern const char *seam_list, *libc_list;
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }

// ------------------------------------------------------------------ one run
struct RunSpec {
    std::string prop;
    u64 wseed = 1, sseed = 1;
    bool replay = false;
    bool keep_all = true;
    std::set<u32> keep;
    std::map<std::pair<int, u64>, u32> dec;
};
static RunSpec *g_spec;
bool op_keep() {
    u32 i = R->nops++;
    return g_spec->keep_all || g_spec->keep.count(i);
}
void describe(const char *fmt, ...) {
    size_t n = strlen(R->desc);
    if (n > sizeof R->desc - 200) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->desc + n, sizeof R->desc - n, fmt, ap);
    va_end(ap);
}
static int cpu_limit = 240;
static void on_xcpu(int) {
    snprintf(R->cls, sizeof R->cls, "hang");
    snprintf(R->msg, sizeof R->msg, "run used %d s of processor time without finishing", cpu_limit);
    R->status = 1;
    _exit(0);
}
[[noreturn]] static void child(RunSpec &sp) {
    g_spec = &sp;
    sim_install_handlers();
    signal(SIGXCPU, on_xcpu);
    struct rlimit rl = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 5};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nf = {8192, 8192};
    setrlimit(RLIMIT_NOFILE, &nf);
    alarm(600);
    if (!getenv("SIM_VERBOSE")) { int n = open("/dev/null", 1); if (n >= 0) { dup2(n, 1); } }
    S.cf.seed = sp.sseed;
    S.cf.replay = sp.replay;
    S.rng = Rng(sp.sseed * 7919 + 13);
    for (auto &d : sp.dec) {
        S.replay_dec.insert(d);
        if (d.first.first == C_SCHED) S.replay_sched.push_back(d.first.second);
    }
    std::sort(S.replay_sched.begin(), S.replay_sched.end());
    shadow_init();
    io_init();
    for (auto &s : scenarios())
        if (sp.prop == s.id) {
            auto f = s.run;
            u64 ws = sp.wseed;
            sim_run([f, ws]() { Rng w(ws); f(w); });
        }
    harness_error("no scenario %s", sp.prop.c_str());
}
static void run_one(RunSpec &sp) {
    // clear everything but the bulk arrays
    memset((void *)R, 0, offsetof(RunResult, note));
    R->note[0] = 0;
    R->ndec = 0;
    R->status = -1;
    R->hash = 0xcbf29ce484222325ull;
    pid_t p = fork();
    if (p == 0) child(sp);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == -1) {
        snprintf(R->cls, sizeof R->cls, "died");
        snprintf(R->msg, sizeof R->msg, "run process ended with wait status 0x%x", st);
        R->status = 2;
    }
}
// ------------------------------------------------------------------ replay files
static void write_replay(const char *path, RunSpec &sp) {
    FILE *f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "property %s\nwseed %llu\nsseed %llu\nclass %s\nhash %016llx\nnops %u\n", sp.prop.c_str(), (unsigned long long)sp.wseed, (unsigned long long)sp.sseed, R->cls,
            (unsigned long long)R->hash, R->nops);
    if (sp.keep_all) fprintf(f, "keep all\n");
    else { fprintf(f, "keep"); for (u32 k : sp.keep) fprintf(f, " %u", k); fprintf(f, "\n"); }
    fprintf(f, "decisions %u\n", R->ndec);
    for (u32 i = 0; i < R->ndec; i++) fprintf(f, "d %u %llu %u\n", R->dec[i].cat, (unsigned long long)R->dec[i].idx, R->dec[i].val);
    fprintf(f, "message %s\n", R->msg);
    fprintf(f, "workload %s\n", R->desc);
    std::string nt = R->note;
    for (size_t i = 0, j; i < nt.size(); i = j + 1) { j = nt.find('\n', i); if (j == std::string::npos) j = nt.size(); fprintf(f, "note %s\n", nt.substr(i, j - i).c_str()); }
    fclose(f);
}
static bool read_replay(const char *path, RunSpec &sp) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        char b[64];
        unsigned long long a, c;
        unsigned k, v;
        if (sscanf(line, "property %63s", b) == 1) sp.prop = b;
        else if (sscanf(line, "wseed %llu", &a) == 1) sp.wseed = a;
        else if (sscanf(line, "sseed %llu", &a) == 1) sp.sseed = a;
        else if (!strncmp(line, "keep all", 8)) sp.keep_all = true;
        else if (!strncmp(line, "keep", 4)) {
            sp.keep_all = false;
            for (char *p = strtok(line + 4, " \n"); p; p = strtok(nullptr, " \n")) sp.keep.insert((u32)atoi(p));
        } else if (sscanf(line, "d %u %llu %u", &k, &c, &v) == 3) sp.dec[{(int)k, c}] = v;
    }
    free(line);
    fclose(f);
    sp.replay = true;
    return true;
}
static std::string jesc(const char *s) {
    std::string o;
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static void print_result() {
    printf("{\"status\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"ihash\":\"%016llx\",\"nops\":%u,\"ndec\":%u,\"switches\":%llu,\"accesses\":%llu,\"sim_ns\":%lld,\"desc\":\"%s\",\"note\":\"%s\"}\n", R->status, jesc(R->cls).c_str(),
           jesc(R->msg).c_str(), (unsigned long long)R->hash, (unsigned long long)R->ihash, R->nops, R->ndec, (unsigned long long)R->switches, (unsigned long long)R->accesses, (long long)R->sim_ns, jesc(R->desc).c_str(), jesc(R->note).c_str());
    fflush(stdout);
}
static u64 mix(u64 a, u64 b) { Rng r(a * 1000003 + b); return r.next(); }
u64 hash_str(const std::string &s) { u64 h = 0xcbf29ce484222325ull; for (char c : s) h = (h ^ (u8)c) * 0x100000001B3ull; return h ^ h >> 31; }

int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    personality(ADDR_NO_RANDOMIZE);
    R = (RunResult *)mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (R == MAP_FAILED) return 2;
    std::string cmd = argc > 1 ? argv[1] : "";
    if (getenv("SIM_CPU")) cpu_limit = atoi(getenv("SIM_CPU"));
    if (cmd == "list") {
        for (auto &s : scenarios()) printf("%s\t%s\n", s.id, s.what);
        printf("seam\t%s\nlibc\t%s\n", seam_list, libc_list);
        return 0;
    }
    if (cmd == "replay") {       // replay FILE [OUT]
        RunSpec sp;
        if (!read_replay(argv[2], sp)) return 2;
        run_one(sp);
        print_result();
        if (argc > 3) write_replay(argv[3], sp);
        return R->status == 0 ? 0 : R->status == 1 ? 1 : 2;
    }
    if (cmd == "one") {          // one PROP wseed sseed [keep,list|all] [OUT]
        RunSpec sp;
        sp.prop = argv[2];
        sp.wseed = strtoull(argv[3], 0, 10);
        sp.sseed = strtoull(argv[4], 0, 10);
        if (argc > 5 && strcmp(argv[5], "all")) {
            sp.keep_all = false;
            for (char *p = strtok(argv[5], ","); p; p = strtok(nullptr, ",")) sp.keep.insert((u32)atoi(p));
        }
        run_one(sp);
        print_result();
        if (argc > 6) write_replay(argv[6], sp);
        return R->status == 0 ? 0 : R->status == 1 ? 1 : 2;
    }
    if (cmd == "multi") {        // multi: lines on stdin "replay FILE" / "one ..." handled by a warm zygote
        char *line = nullptr;
        size_t cap = 0;
        while (getline(&line, &cap, stdin) > 0) {
            std::vector<std::string> v;
            for (char *p = strtok(line, " \n"); p; p = strtok(nullptr, " \n")) v.push_back(p);
            if (v.empty()) continue;
            RunSpec sp;
            const char *out = nullptr;
            if (v[0] == "replay") { if (!read_replay(v[1].c_str(), sp)) { printf("{\"status\":2,\"cls\":\"nofile\"}\n"); continue; } if (v.size() > 2) out = v[2].c_str(); }
            else {
                sp.prop = v[1]; sp.wseed = strtoull(v[2].c_str(), 0, 10); sp.sseed = strtoull(v[3].c_str(), 0, 10);
                if (v.size() > 4 && v[4] != "all") {
                    sp.keep_all = false;
                    std::string k = v[4];
                    if (k != "none") for (char *p = strtok(&k[0], ","); p; p = strtok(nullptr, ",")) sp.keep.insert((u32)atoi(p));
                }
                if (v.size() > 5) out = v[5].c_str();
            }
            run_one(sp);
            if (out) write_replay(out, sp);
            print_result();
        }
        return 0;
    }
    if (cmd == "batch") {        // batch PROP base start stride count outdir wall_s gate_every max_viol
        std::string prop = argv[2];
        u64 base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        std::string out = argv[7];
        double wall = atof(argv[8]);
        u64 gate = strtoull(argv[9], 0, 10);
        int maxv = atoi(argv[10]);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        u64 fsum[FK_N] = {0}, psum[32] = {0}, runs = 0, acc = 0, sw = 0, sp_ = 0, sysc = 0, gates = 0, ndm = 0, herr = 0, nonempty = 0, faulted = 0, opsum = 0;
        double simns = 0;
        int viol = 0;
        FILE *ih = fopen((out + strf("/ihash.%llu", (unsigned long long)start)).c_str(), "w");
        for (u64 i = start; i < count; i += stride) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            double el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9;
            if (el > wall) break;
            RunSpec sp;
            sp.prop = prop;
            sp.wseed = sp.sseed = mix(base ^ hash_str(prop), i) >> 1;
            struct timespec r0, r1;
            clock_gettime(CLOCK_MONOTONIC, &r0);
            run_one(sp);
            clock_gettime(CLOCK_MONOTONIC, &r1);
            if (r1.tv_sec - r0.tv_sec > 15) fprintf(stderr, "slow run: %s %llu took %ld s\n", prop.c_str(), (unsigned long long)sp.wseed, (long)(r1.tv_sec - r0.tv_sec));
            runs++;
            u64 h = R->hash, nf = 0;
            for (int k = 0; k < FK_N; k++) { fsum[k] += R->faults[k]; nf += R->faults[k]; }
            for (int k = 0; k < 32; k++) psum[k] += R->probes[k];
            acc += R->accesses; sw += R->switches; sp_ += R->sched_points; sysc += R->syscalls; simns += (double)R->sim_ns; opsum += R->nops;
            if (nf) faulted++;
            if (R->nops && (nf || R->switches)) nonempty++;
            if (ih) fprintf(ih, "%016llx %016llx\n", (unsigned long long)(R->ihash), (unsigned long long)(R->hash));
            if (R->status == 1) {
                std::string p = out + strf("/raw-%llu.replay", (unsigned long long)i);
                write_replay(p.c_str(), sp);
                printf("V %llu %s %s\n", (unsigned long long)i, p.c_str(), R->cls);
                if (++viol >= maxv) break;
                continue;
            }
            if (R->status == 2) {
                herr++;
                printf("H %llu {\"cls\":\"%s\",\"msg\":\"%s\",\"seed\":%llu}\n", (unsigned long long)i, jesc(R->cls).c_str(), jesc(R->msg).c_str(), (unsigned long long)sp.wseed);
                continue;
            }
            if (runs <= 2 && start < 3) printf("S {\"seed\":%llu,\"workload\":\"%s\",\"ops\":%u,\"switches\":%llu,\"faults\":%llu,\"decisions\":%u,\"sim_ms\":%.3f}\n", (unsigned long long)sp.wseed, jesc(R->desc).c_str(), R->nops,
                                (unsigned long long)R->switches, (unsigned long long)nf, R->ndec, (double)R->sim_ns / 1e6);
            if (gate && (runs % gate) == 1) {
                gates++;
                run_one(sp);
                if (R->hash != h || R->status != 0) { ndm++; printf("N %llu seed %llu first %016llx second %016llx status %d\n", (unsigned long long)i, (unsigned long long)sp.wseed, (unsigned long long)h, (unsigned long long)R->hash, R->status); }
            }
        }
        if (ih) fclose(ih);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = (double)(t1.tv_sec - t0.tv_sec) + (double)(t1.tv_nsec - t0.tv_nsec) / 1e9;
        printf("E {\"runs\":%llu,\"wall\":%.3f,\"sim_ns\":%.0f,\"accesses\":%llu,\"switches\":%llu,\"points\":%llu,\"syscalls\":%llu,\"gates\":%llu,\"nondet\":%llu,\"harness\":%llu,\"nontrivial\":%llu,\"faulted\":%llu,\"ops\":%llu,\"faults\":{", (unsigned long long)runs, el, simns,
               (unsigned long long)acc, (unsigned long long)sw, (unsigned long long)sp_, (unsigned long long)sysc, (unsigned long long)gates, (unsigned long long)ndm, (unsigned long long)herr, (unsigned long long)nonempty, (unsigned long long)faulted, (unsigned long long)opsum);
        for (int k = 0, c = 0; k < FK_N; k++) if (fsum[k]) printf("%s\"%s\":%llu", c++ ? "," : "", fault_names[k], (unsigned long long)fsum[k]);
        printf("},\"probes\":[");
        for (int k = 0; k < 32; k++) printf("%s%llu", k ? "," : "", (unsigned long long)psum[k]);
        printf("]}\n");
        return 0;
    }
    fprintf(stderr, "usage: sim list|replay|one|multi|batch\n");
    return 2;
}
// ------------------------------------------------------------------ helpers
std::string strf(const char *fmt, ...) {
    char *p = nullptr;
    va_list ap;
    va_start(ap, fmt);
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string s(p, n > 0 ? (size_t)n : 0);
    free(p);
    return s;
}
void Node::create(std::vector<std::string> v) {
    static std::deque<std::vector<std::string>> hold;
    v.insert(v.begin(), "rayforce");
    hold.push_back(v);
    auto &h = hold.back();
    std::vector<char *> *av = new std::vector<char *>();
    for (auto &s : h) av->push_back(&s[0]);
    av->push_back(nullptr);
    if (!a->create((int)h.size(), av->data())) violation("create_failed", "runtime_create returned NULL on node %d: %s", k, g_out[k].c_str());
}
std::string Node::canon(void *o, u64 *h, long long lim) {
    unsigned long long hh = 0;
    char *c = a->canon(o, lim, &hh);
    std::string s = c;
    free(c);
    if (h) *h = hh;
    return s;
}
void echo(const std::string &s) { static const char *e = getenv("SIM_ECHO"); if (e) fprintf(stderr, "> %s\n", s.c_str()); }
std::string Node::eval(const std::string &src, u64 *h, long long lim) {
    echo(src);
    void *o = a->eval(src.c_str());
    std::string s = canon(o, h, lim);
    a->drop(o);
    return s;
}
std::string Node::deep(void *o, u64 *h, long long lim) {
    unsigned long long hh = 0;
    char *c = a->canon_deep(o, lim, &hh);
    std::string s = c;
    free(c);
    if (h) *h = hh;
    return s;
}
std::string Node::evald(const std::string &src, u64 *h, long long lim) {
    echo(src);
    void *o = a->eval(src.c_str());
    std::string s = deep(o, h, lim);
    a->drop(o);
    return s;
}
bool Node::ok(const std::string &src) {
    echo(src);
    void *o = a->eval(src.c_str());
    bool e = a->type(o) == T_ERR;
    a->drop(o);
    return !e;
}
std::string Node::fmt(const std::string &src) {
    echo(src);
    void *o = a->eval(src.c_str());
    char *c = a->fmt(o);
    std::string s = c;
    free(c);
    a->drop(o);
    return s;
}
void Node::must(const std::string &src) {
    echo(src);
    void *o = a->eval(src.c_str());
    if (a->type(o) == T_ERR) {
        char *c = a->fmt(o);
        violation("setup_failed", "an ordinary step failed: %.300s -> %.300s", src.c_str(), c);
    }
    a->drop(o);
}
int spawn_node(int k, std::function<void()> body) {
    int id = sim_spawn(k, body);
    io_set_main(k, id);
    return id;
}
void wait_thr(int id) { sim_wait([id]() { return sim_thread_done(id); }, -1, "driver waits for a thread"); }
bool wait_thr_for(int id, s64 ns) { return !sim_wait([id]() { return sim_thread_done(id); }, S.now + ns, "driver waits for a thread"); }
void on_node(int k, std::function<void()> body) { wait_thr(spawn_node(k, body)); }
