// C04: every history of variable create / look-up / delete / auto-create
// operations up to the depth, executed on the real process-global registry.
// The history tree is explored by forking at every node, so each node starts
// from exactly the registry state its history produced.
#include "harness.hh"
#include <clpoly/variable.hh>
#include <clpoly/polynomial.hh>
#include <map>
using clpoly::variable;
using namespace std;

static const vector<string> NM = {"a", "b", "#var_1", "#var_2", "#var_3"};
enum { NN = 5, OPS = NN * 3 + 1 + 4 };
static string opname(int o) {
    if (o < NN) return "get(" + NM[o] + ")";
    if (o < 2 * NN) return "new(" + NM[o - NN] + ")";
    if (o < 3 * NN) return "del(" + NM[o - 2 * NN] + ")";
    if (o == 3 * NN) return "new()";
    return "del#" + to_string(o - 3 * NN);
}
struct Model {
    map<string, size_t> live; map<size_t, string> byserial;
    void add(const string& n, size_t s, const string& ctx) {
        CHECK(s != 0, ctx << ": variable got the reserved identifier 0");
        CHECK(!byserial.count(s), ctx << ": identifier " << s << " given to '" << n << "' while '" << byserial[s] << "' still has it");
        CHECK(!live.count(n), ctx << ": name '" << n << "' already live");
        live[n] = s; byserial[s] = n;
    }
    void check(const string& ctx) {
        for (auto& [n, s] : live) {
            vh::step(3);
            variable v = variable::get_variable(n), w = variable::get_variable(s);
            CHECK(v.serial() == s, ctx << ": look-up of live '" << n << "' returns identifier " << v.serial() << ", expected " << s);
            CHECK(w.serial() == s, ctx << ": look-up of identifier " << s << " returns " << w.serial());
            CHECK(v.name() == n && w.name() == n, ctx << ": identifier " << s << " is named '" << w.name() << "', expected '" << n << "'");
            variable u(n); CHECK(u == v && !(u != v) && !(u < v) && u <= v, ctx << ": handles of '" << n << "' differ");
        }
        for (auto& [n, s] : live) for (auto& [m, t] : live) if (n != m)
            CHECK(variable::get_variable(n) != variable::get_variable(m), ctx << ": '" << n << "' and '" << m << "' are the same variable");
    }
};
static bool apply(Model& m, int o, const string& ctx) {
    vh::step();
    if (o < NN) {
        bool was = m.live.count(NM[o]); variable v = variable::get_variable(NM[o]);
        if (!was) m.add(NM[o], v.serial(), ctx);
        else CHECK(v.serial() == m.live[NM[o]], ctx << ": existing variable not returned");
    } else if (o < 2 * NN) {
        const string& n = NM[o - NN]; if (m.live.count(n)) return false;   // precondition of creation
        variable v = variable::new_variable(n); m.add(n, v.serial(), ctx);
    } else if (o < 3 * NN) {
        const string& n = NM[o - 2 * NN]; variable::del_variable(n);
        if (m.live.count(n)) { m.byserial.erase(m.live[n]); m.live.erase(n); }
    } else if (o == 3 * NN) {
        variable v = variable::new_variable(); string n = v.name();
        CHECK(!n.empty(), ctx << ": automatic variable has no name"); m.add(n, v.serial(), ctx);
    } else {
        size_t s = o - 3 * NN; variable::del_variable(s);
        if (m.byserial.count(s)) { m.live.erase(m.byserial[s]); m.byserial.erase(s); }
    }
    return true;
}
static char* buf = nullptr;
static void fork_run(function<void()> f) {
    pid_t c = fork();
    if (c == 0) { try { f(); _exit(0); } catch (vh::Fail& x) { snprintf(buf, 4000, "%s", x.msg.c_str()); _exit(3); } catch (exception& e) { snprintf(buf, 4000, "exception %s", e.what()); _exit(3); } }
    int st; waitpid(c, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vh::fail(buf);
    vh::fail("process died with status " + to_string(st));
}
static void explore(Model m, string hist, int left, const vector<int>* only = nullptr) {
    string st; for (auto& [n, s] : m.live) st += n + "=" + to_string(s) + ";"; vh::state(st); vh::outcome(st);
    if (!left) return;
    for (int o = 0; o < OPS; ++o) if (!only || find(only->begin(), only->end(), o) != only->end()) fork_run([&] {
        Model k = m; string h = hist + " " + opname(o);
        snprintf(buf, 4000, "%s", ("died in history" + h).c_str());
        if (!apply(k, o, h)) return;
        k.check(h); vh::aux(0);
        explore(k, h, left - 1, only);
    });
}
int main(int argc, char** argv) {
    vh::aux_names[0] = "histories";
    vh::case_limit = 600; vh::alone_limit = 600;
    return vh::main_(argc, argv, [] {
        if (!buf) buf = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int D = vh::thorough ? 5 : 4;
        vh::scope("histories", OPS * OPS, [D](uint64_t i) {
            buf = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            fork_run([&] {
                Model m; string h; int o[2] = {int(i % OPS), int(i / OPS)};
                for (int k : o) { h += " " + opname(k); if (!apply(m, k, h)) return; m.check(h); }
                explore(m, h, D - 2);
            });
            munmap(buf, 4096);
        }, [](uint64_t i) { return opname(i % OPS) + " " + opname(i / OPS) + " then all continuations"; });
        // deeper histories over a reduced alphabet (deleting a name or an identifier that is no longer live included)
        static const vector<int> few{0, 1, 2 * NN, 3 * NN, 3 * NN + 1, 3 * NN + 2}; int DD = vh::thorough ? 8 : 6, F = few.size();
        vh::scope("deep", F * F, [=](uint64_t i) {
            buf = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            fork_run([&] {
                Model m; string h;
                for (int k : {few[i % F], few[i / F]}) { h += " " + opname(k); if (!apply(m, k, h)) return; m.check(h); }
                explore(m, h, DD - 2, &few);
            });
            munmap(buf, 4096);
        }, [F](uint64_t i) { return opname(few[i % F]) + " " + opname(few[i / F]) + " then all continuations over the reduced alphabet"; });
        // every set of live names of the automatic shape (with up to three trailing underscores), then automatic variables on fresh and on recycled identifiers
        vh::scope("automatic.names", 256 * 4 * 2, [](uint64_t i) {
            buf = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            fork_run([&] {
                vh::Dec d(i); int set = d(256), freed = d(4), late = d(2); Model m; string h = "set " + to_string(set) + " freed " + to_string(freed);
                vector<size_t> f; for (int j = 0; j < 4; ++j) { string n = "f" + to_string(j); variable v = variable::get_variable(n); m.add(n, v.serial(), h); f.push_back(v.serial()); }
                auto take = [&] { for (int j = 0; j < freed; ++j) { string n = "f" + to_string(j); variable::del_variable(n); m.byserial.erase(m.live[n]); m.live.erase(n); } };
                auto names = [&] { size_t hi = 0; for (auto& e : m.byserial) hi = max(hi, e.first); size_t a = freed ? f[freed - 1] : hi + 9, b = hi + 1; for (int j = 0; j < 8; ++j) if (set >> j & 1) { string n = "#var_" + to_string(j < 4 ? a : b + __builtin_popcount(set) - (late ? freed : 0)) + string(j % 4, '_'); if (m.live.count(n)) continue; variable v = variable::new_variable(n); m.add(n, v.serial(), h); } };
                if (late) { take(); names(); } else { names(); take(); }
                for (int j = 0; j < freed + 2; ++j) { variable v = variable::new_variable(); m.add(v.name(), v.serial(), h + " automatic " + v.name()); m.check(h); vh::step(); }
            });
            munmap(buf, 4096);
        });
        // many variables live at once: identifiers and names stay in bijection through deep delete/create stacks
        vh::scope("stacks", 5 * 5 * 5, [](uint64_t i) {
            buf = (char*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            fork_run([&] {
                vh::Dec d(i); int n = 1 + d(5), k = d(5), stride = 1 + d(5); Model m;
                for (int j = 0; j < n * 20; ++j) { string nm = "v" + to_string(j); m.add(nm, variable::get_variable(nm).serial(), "create"); }
                for (int r = 0; r < 3; ++r) {
                    for (int j = k; j < n * 20; j += stride) { string nm = "v" + to_string(j); if (!m.live.count(nm)) continue; if (j & 1) variable::del_variable(nm); else variable::del_variable(m.live[nm]); m.byserial.erase(m.live[nm]); m.live.erase(nm); }
                    for (int j = 0; j < n; ++j) { variable v = variable::new_variable(); m.add(v.name(), v.serial(), "auto"); }
                    for (int j = k + r; j < n * 20; j += stride + 1) { string nm = "v" + to_string(j); if (m.live.count(nm)) continue; variable v = (j & 1) ? variable::new_variable(nm) : variable::get_variable(nm); m.add(nm, v.serial(), "re-create"); }
                    vh::step(n * 20);
                }
                for (auto& [nm, s] : m.live) CHECK(variable::get_variable(nm).serial() == s && variable::get_variable(s).name() == nm, "bijection broken at " << nm);
            });
            munmap(buf, 4096);
        });
    });
}
