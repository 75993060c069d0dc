// Bounded-exhaustive exploration driver.
//
// A check is a list of scopes.  A scope is a finite space [0,n) of cases; every
// case is executed on the real library code and compared with a reference model.
// Nothing is sampled: all indices of all scopes are run.  Work is spread over
// forked workers; a worker that dies (assert, SIGFPE, SIGSEGV) or hangs is
// attributed to the case it was running, the case is replayed alone, and only a
// reproduced failure is reported.
#pragma once
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

struct Shared {
    std::atomic<uint64_t> next_chunk;
    std::atomic<uint64_t> cases, transitions, states, outcomes, nviol;
    std::atomic<uint64_t> aux[8];
    struct Slot { std::atomic<uint64_t> scope, idx; std::atomic<double> start, cpu; std::atomic<int> busy; } slot[64];
    std::atomic<uint64_t> st[1u << 22];   // distinct-state hash set
    std::atomic<uint64_t> oc[1u << 20];   // distinct-outcome hash set
};
inline Shared* S = nullptr;
inline bool g_verbose = false;
inline bool thorough = false;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; return x ^ (x >> 31); }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h); }
template <size_t N> inline bool hs_insert(std::atomic<uint64_t> (&t)[N], uint64_t h) {
    if (!h) h = 1;
    for (size_t k = 0, i = h % N; k < 64; ++k, i = (i + 1) % N) {
        uint64_t e = t[i].load(std::memory_order_relaxed);
        if (e == h) return false;
        if (e == 0) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
    return false;   // table full around here: state is checked, just not counted as new
}

struct Fail { std::string key, msg; };
[[noreturn]] inline void fail(const std::string& msg, const std::string& key = "") { throw Fail{key, msg}; }
#define CHECK(cond, ...) do { if (!(cond)) { std::ostringstream _o; _o << __VA_ARGS__; vh::fail(_o.str()); } } while (0)
// one API operation executed on the implementation and compared
inline void step(uint64_t n = 1) { S->transitions.fetch_add(n, std::memory_order_relaxed); }
inline void state(uint64_t h) { if (hs_insert(S->st, h)) S->states.fetch_add(1, std::memory_order_relaxed); }
inline void state(const std::string& s) { state(hstr(s)); }
inline void outcome(uint64_t h) { if (hs_insert(S->oc, h)) S->outcomes.fetch_add(1, std::memory_order_relaxed); }
inline void outcome(const std::string& s) { outcome(hstr(s)); }
inline void aux(int i, uint64_t n = 1) { S->aux[i].fetch_add(n, std::memory_order_relaxed); }

struct Scope {
    std::string name;
    uint64_t n;
    std::function<void(uint64_t)> run;                 // throws Fail
    std::function<std::string(uint64_t)> describe;     // text of a case
};
inline std::vector<Scope> scopes;
inline std::vector<std::string> aux_names(8);
inline void scope(const std::string& name, uint64_t n, std::function<void(uint64_t)> run,
                  std::function<std::string(uint64_t)> d = nullptr) { scopes.push_back({name, n, run, d}); }

// time used by a child of ours: processor time, so that a loaded or paused machine is not taken for a hang
inline double used(pid_t c, double wall) { clockid_t k; timespec t; if (clock_getcpuclockid(c, &k) || clock_gettime(k, &t)) return wall; double u = t.tv_sec + t.tv_nsec * 1e-9, w = wall / 8; return u > w ? u : w; }
inline double case_limit = 40, alone_limit = 120;
inline void child_limits() {
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit as{3500000000ul, 3500000000ul}; setrlimit(RLIMIT_AS, &as);
#endif
}

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// run one case in this process; returns false on failure
inline bool run_case(size_t sc, uint64_t i, Fail& f) {
    try { scopes[sc].run(i); return true; }
    catch (Fail& x) { f = x; return false; }
    catch (std::exception& e) { f = {"", std::string("unexpected exception: ") + e.what()}; return false; }
}
// run one case in a fresh child; 0 ok, 1 fail (msg filled), 2 hang
inline int run_alone(size_t sc, uint64_t lo, uint64_t i, double limit, Fail& f) {
    int p[2]; if (pipe(p)) return 0;
    fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
        close(p[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (!g_verbose) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        child_limits();
        Fail x, y; for (uint64_t j = lo; j < i; ++j) run_case(sc, j, y);
        bool ok = run_case(sc, i, x);
        std::string o = ok ? "OK" : "F" + x.key + "\x01" + x.msg;
        if (o.size() > 60000) o.resize(60000);
        (void)!write(p[1], o.data(), o.size());
        _exit(0);
    }
    close(p[1]);
    double t0 = now(); bool hang = false; int st = 0;
    while (true) {
        pid_t r = waitpid(c, &st, WNOHANG);
        if (r == c) break;
        if (used(c, now() - t0) > limit) { kill(c, SIGKILL); waitpid(c, &st, 0); hang = true; break; }
        usleep(2000);
    }
    std::string o; char b[4096]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, k);
    close(p[0]);
    if (hang) { f = {"", "no answer within the time limit (hang)"}; return 2; }
    if (o == "OK") return 0;
    if (!o.empty() && o[0] == 'F') { auto q = o.find('\x01'); f = {o.substr(1, q - 1), o.substr(q + 1)}; return 1; }
    std::ostringstream m; m << "process died: "; if (WIFSIGNALED(st)) m << "signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")"; else m << "exit " << WEXITSTATUS(st);
    f = {"", m.str()};
    return 1;
}

// --- output protocol (read by run.py): lines "V\t<scope>\t<idx>\t<key>\t<json msg>", finally "R\t<json>"
inline void report(size_t sc, uint64_t lo, uint64_t i, const Fail& f) {
    std::string d = scopes[sc].describe ? scopes[sc].describe(i) : "";
    std::ostringstream o;
    o << "V\t" << scopes[sc].name << "\t" << i << "\t" << (f.key.empty() ? scopes[sc].name + ":" + (d.empty() ? std::to_string(i) : d) : f.key)
      << "\t" << jesc(f.msg) << "\t" << lo << "\n";
    std::string s = o.str();
    (void)!write(1, s.data(), s.size());
}

inline int main_(int argc, char** argv, std::function<void()> setup) {
    std::string rs; uint64_t ri = 0, rlo = ~0ull; int jobs = 8; uint64_t maxv = 12; std::set<std::string> known; std::string only;
    for (int a = 1; a < argc; ++a) {
        std::string s = argv[a];
        if (s == "--thorough") thorough = true;
        else if (s == "--replay") { rs = argv[++a]; ri = strtoull(argv[++a], 0, 10); }
        else if (s == "--from") rlo = strtoull(argv[++a], 0, 10);
        else if (s == "--jobs") jobs = atoi(argv[++a]);
        else if (s == "--known") { FILE* f = fopen(argv[++a], "r"); char l[65536]; while (f && fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; known.insert(l); } if (f) fclose(f); }
        else if (s == "--only") only = argv[++a];
        else if (s == "--maxv") maxv = atoi(argv[++a]);
        else if (s == "--limit") case_limit = alone_limit = atof(argv[++a]);
    }
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    setup();
    if (!only.empty()) { std::vector<Scope> v; for (auto& s : scopes) if (s.name == only) v.push_back(s); scopes = v; }
    if (!rs.empty()) {
        for (size_t i = 0; i < scopes.size(); ++i) if (scopes[i].name == rs) {
            g_verbose = true; Fail f;
            if (scopes[i].describe) std::cout << "case: " << scopes[i].describe(ri) << std::endl;
            int r = run_alone(i, rlo < ri ? rlo : ri, ri, alone_limit, f);
            if (r) { std::cout << "REPRODUCED " << f.msg << std::endl; return 1; }
            std::cout << "case passes" << std::endl; return 0;
        }
        std::cout << "no such scope in this tier (try --thorough)" << std::endl; return 2;
    }
    // chunk table
    struct Chunk { size_t sc; uint64_t lo, hi; };
    std::vector<Chunk> ch;
    for (size_t s = 0; s < scopes.size(); ++s) {
        uint64_t n = scopes[s].n, c = n / 256; if (c < 1) c = 1; if (c > 4096) c = 4096;
        for (uint64_t l = 0; l < n; l += c) ch.push_back({s, l, std::min(n, l + c)});
    }
    double t0 = now();
    std::vector<pid_t> pid(jobs, 0);
    // pending: resume ranges for chunks cut short by a dead worker
    struct Resume { std::atomic<uint64_t> chunk1, from; };
    Resume* res = (Resume*)mmap(0, sizeof(Resume) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::atomic<uint64_t>* cur_chunk = (std::atomic<uint64_t>*)mmap(0, 64 * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            child_limits();
            int n = open("/dev/null", O_WRONLY); dup2(n, 2);
            while (true) {
                uint64_t ci, from;
                if (res[w].chunk1.load()) { ci = res[w].chunk1.load() - 1; from = res[w].from.load(); res[w].chunk1 = 0; }
                else { ci = S->next_chunk.fetch_add(1); if (ci >= ch.size()) _exit(0); from = ch[ci].lo; }
                cur_chunk[w] = ci;
                for (uint64_t i = from; i < ch[ci].hi; ++i) {
                    if (S->nviol.load() >= maxv) _exit(0);
                    S->slot[w].scope = ch[ci].sc; S->slot[w].idx = i; S->slot[w].start = now(); S->slot[w].cpu = used(getpid(), 0); S->slot[w].busy = 1;
                    Fail f;
                    bool ok = run_case(ch[ci].sc, i, f);
                    S->slot[w].busy = 0;
                    S->cases.fetch_add(1, std::memory_order_relaxed);
                    if (!ok) {
                        Fail g; uint64_t lo = i; int r = run_alone(ch[ci].sc, i, i, alone_limit, g);
                        if (r == 0) { lo = ch[ci].lo; r = run_alone(ch[ci].sc, lo, i, 3 * alone_limit, g); if (r == 2) r = 0; if (r) g.msg = "(after running cases " + std::to_string(lo) + ".." + std::to_string(i) + " in this process) " + g.msg; }
                        if (r == 0) { g = {"", "NOT REPRODUCED: " + f.msg}; g.key = "nonreproducible"; }
                        if (!known.count(g.key.empty() ? scopes[ch[ci].sc].name + ":" + (scopes[ch[ci].sc].describe ? scopes[ch[ci].sc].describe(i) : std::to_string(i)) : g.key)) S->nviol.fetch_add(1);
                        report(ch[ci].sc, lo, i, g);
                    }
                }
            }
        }
        pid[w] = c;
    };
    for (int w = 0; w < jobs; ++w) spawn(w);
    int live = jobs;
    double over = 0;   // when the violation limit was reached: cases still running then get a short grace period
    while (live > 0) {
        usleep(5000);
        if (S->nviol.load() >= maxv) { if (!over) over = now(); else if (now() - over > 20) { for (int w = 0; w < jobs; ++w) if (pid[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; } break; } }
        for (int w = 0; w < jobs; ++w) {
            if (!pid[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool dead = false;
            if (r == pid[w]) { if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; --live; continue; } dead = true; }
            else if (S->nviol.load() < maxv && S->slot[w].busy && now() - S->slot[w].start > case_limit && (used(pid[w], 0) - S->slot[w].cpu > case_limit || now() - S->slot[w].start > 8 * case_limit)) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); dead = true; }
            if (dead && S->nviol.load() >= maxv) { pid[w] = 0; --live; continue; }
            if (dead) {
                size_t sc = S->slot[w].scope; uint64_t i = S->slot[w].idx;
                Fail g; uint64_t lo = i; int rr = run_alone(sc, i, i, alone_limit, g);
                if (!rr && r == pid[w]) { lo = ch[cur_chunk[w].load()].lo; rr = run_alone(sc, lo, i, 3 * alone_limit, g); if (rr == 2) rr = 0; }
                S->slot[w].busy = 0; S->cases.fetch_add(1);
                if (rr) {
                    std::string k = g.key.empty() ? scopes[sc].name + ":" + (scopes[sc].describe ? scopes[sc].describe(i) : std::to_string(i)) : g.key;
                    if (!known.count(k)) S->nviol.fetch_add(rr == 2 ? maxv : 1);   // a hang ends the run: no time to wait for more
                    report(sc, lo, i, g);
                }
                res[w].from = i + 1; res[w].chunk1 = cur_chunk[w].load() + 1;
                if (S->nviol.load() >= maxv) { pid[w] = 0; --live; } else spawn(w);
            }
        }
    }
    bool complete = S->nviol.load() < maxv;
    std::ostringstream o;
    o << "R\t{\"complete\":" << (complete ? "true" : "false") << ",\"cases\":" << S->cases.load() << ",\"transitions\":" << S->transitions.load()
      << ",\"states\":" << S->states.load() << ",\"outcomes\":" << S->outcomes.load() << ",\"seconds\":" << (now() - t0) << ",\"scopes\":{";
    for (size_t s = 0; s < scopes.size(); ++s) o << (s ? "," : "") << "\"" << scopes[s].name << "\":" << scopes[s].n;
    o << "},\"aux\":{"; bool first = true;
    for (int a = 0; a < 8; ++a) if (!aux_names[a].empty()) { o << (first ? "" : ",") << "\"" << aux_names[a] << "\":" << S->aux[a].load(); first = false; }
    o << "},\"samples\":["; first = true; int cnt = 0;
    for (size_t s = 0; s < scopes.size() && cnt < 40; ++s) if (scopes[s].describe && scopes[s].n)
        for (uint64_t q : {scopes[s].n / 3, scopes[s].n - 1}) { o << (first ? "" : ",") << "\"" << jesc(scopes[s].name + "[" + std::to_string(q) + "] " + scopes[s].describe(q)) << "\""; first = false; ++cnt; }
    o << "]}\n";
    std::cout << o.str() << std::flush;
    return 0;
}
// mixed-radix decoder
struct Dec { uint64_t v; explicit Dec(uint64_t x) : v(x) {} uint64_t operator()(uint64_t r) { uint64_t q = v % r; v /= r; return q; } };
inline int64_t ds(uint64_t digit, int64_t lo) { return lo + (int64_t)digit; }
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
} // namespace vh
