// C24: answers do not depend on the outcome of internal random draws or on what was computed before in the process.
#include "zfactor.hh"
#include "algebra.hh"
#include <clpoly/groebner.hh>
#include <clpoly/charset.hh>
#include <clpoly/realroot.hh>
using namespace rp; using namespace std;
struct Op { string name; function<string()> f; string want; };
static vector<Op>* ops = new vector<Op>; static const int N = 4;
static RP v(int i) { return RP::x(i, N); } static RP k(const RQ& q) { return RP::c(q, N); }
// answers as text that does not depend on the listing order or on signs of associates
static string sgn(RP p) { if (!p.zero() && p.t.rbegin()->second < 0) p = -p; return p.str(); }
template <class P> static string factors(const vector<pair<P, uint64_t>>& L, bool sign) { vector<string> s; for (auto& x : L) { RP p = from(x.first, N, "factor"); s.push_back((sign ? sgn(p) : p.str()) + "^" + to_string(x.second)); } sort(s.begin(), s.end()); string r; for (auto& x : s) r += "[" + x + "]"; return r; }
template <class Tc, class comp> static polynomial_<Tc, comp> L(const RP& p, const comp* c) { return lib<Tc, comp>(p, c); }
template <class comp> static void gcds(const string& n, const RP& g, const RP& a, const RP& b, const comp* c) { ops->push_back({"gcd " + n, [=] { auto f = L<ZZ, comp>(g * a, c), h = L<ZZ, comp>(g * b, c); return sgn(from(gcd(f, h), N)) + " | " + sgn(from(gcd(h, f), N)); }, ""}); }
template <class comp> static void facs(const string& n, const vector<RP>& F, const comp* c) { RP p = k(RQ(1)); for (auto& f : F) p = p * f; ops->push_back({"factorize " + n, [=] { auto r = factorize(L<ZZ, comp>(p, c)); RP back = k(cref(r.content)); for (auto& x : r.factors) back = back * rpow(from(x.first, N), x.second, N); CHECK(back == p, "factors of " << p << " multiply to " << back); return factors(r.factors, true); }, ""}); }
template <class comp> static void sqfs(const string& n, const RP& p, const comp* c) { ops->push_back({"squarefree " + n, [=] { auto f = L<ZZ, comp>(p, c); auto r = squarefreefactorize(f); return factors(r, true) + (is_squarefree(f) ? "1" : "0"); }, ""}); }
static void catalogue() {
    static lex_<custom_var_order> lc(custom_var_order({X[2], X[0], X[1], X[3]})); auto q = [](const char* s) { return RQ(s); };
    RP x = v(0), y = v(1), z = v(2), t = v(3), o = k(RQ(1)); auto big = k(q("1000000000000000000000000000057"));
    gcds("1v", x * x - o, x * RQ(3) + o, x - o * RQ(2), &lex::init); gcds("1v.large", x * x * RQ(q("9223372036854775783")) - big, x + big, x * RQ(7) - o, &lex::init); gcds("2v", x * y - o, x + y, x - y * y, &lex::init); gcds("2v.grlex", x * y * RQ(6) + y, x * x + y, y * y * RQ(2) - x, &grlex::init); gcds("2v.coprime", o, x * x + y * y, x * x + y * y * RQ(2) - o, &lex::init); gcds("2v.lc", (y - o) * (y - o * RQ(2)) * x + y, (y + o) * x * x - y, y * x * x * RQ(2) + o, &grlex::init); gcds("3v", x * y + z, x * z - y, y * y + x * z * RQ(5), &lex::init); gcds("3v.custom", z * x - y * y, x + y + z, x * y * z - o * RQ(3), &lc); gcds("4v", x * t + y * z, x - t, y * y * t + z, &grlex::init); gcds("3v.content", (y + z) * RQ(12), (x * y + o) * RQ(5), (x * z - o) * RQ(35), &lex::init);
    facs("1v", {x - o, x + o, x * x + x + o, x * RQ(3) - o * RQ(2)}, &lex::init); facs("1v.swinnerton", {x * x * x * x - x * x * RQ(10) + o, x * x * x * x + o}, &lex::init); facs("1v.powers", {x, x, x + o, x + o, x + o, k(RQ(-12))}, &grlex::init); facs("2v", {x * y - o, x + y, x - y, k(RQ(-4))}, &lex::init); facs("2v.lc", {(y * y - o) * x + o, (y + o * RQ(2)) * x * x - y}, &grlex::init); facs("2v.irreducible", {x * x * y + y * y + o}, &lex::init); facs("2v.powers", {x + y * y, x + y * y, x * y + o * RQ(2)}, &lex::init); facs("2v.many", {x - y, x + y, x + y * RQ(2), x - y - o, x * y + o}, &grlex::init); facs("2v.large", {x * x - y * RQ(q("1000000000000000000000000000057")), x + y * RQ(q("9223372036854775783")) - o}, &lex::init); facs("3v", {x * y + z, x - z * z + o, x + y - z}, &lex::init); facs("3v.custom", {z * x + y, x * y - z - o * RQ(2)}, &lc); facs("3v.lc", {(y - z) * x + o, (y + z) * x * x - y}, &lex::init); facs("4v", {x * t + y * z, x + y + z + t}, &grlex::init); facs("4v.cube", {x * y + z + t, x * z - t, x * z - t}, &lex::init);
    sqfs("1v", (x - o) * (x - o) * (x + o), &lex::init); sqfs("2v", (x * y - o) * (x * y - o) * (x + y), &lex::init); sqfs("2v.grlex", (x + y) * (x + y) * (x + y) * (x - y * y), &grlex::init); sqfs("3v", (x * z - y) * (x * z - y) * (y + z), &lex::init); sqfs("3v.squarefree", (x * z - y) * (x + y + z), &lc);
    ops->push_back({"squarefreebasis", [=] { vector<polynomial_ZZ> F{L<ZZ, grlex>((x + y) * (x - y) * (x - y), &grlex::init), L<ZZ, grlex>((x - y) * (x * y + o), &grlex::init), L<ZZ, grlex>(x * y + o, &grlex::init)}; vector<string> s; for (auto& p : squarefreebasis(F).first) s.push_back(sgn(from(p, N))); sort(s.begin(), s.end()); string r; for (auto& a : s) r += "[" + a + "]"; return r; }, ""});
    ops->push_back({"resultant", [=] { return from(resultant(L<ZZ, grlex>(x * x * y + z, &grlex::init), L<ZZ, grlex>(x * y - z * z + o, &grlex::init), X[0]), N).str() + from(discriminant(L<ZZ, lex>(x * x * y + x * z + o, &lex::init), X[0]), N).str(); }, ""});
    ops->push_back({"realroot", [=] { vector<polynomial_ZZ> F{L<ZZ, grlex>((x * x - o * RQ(2)) * (x * RQ(2) - o), &grlex::init), L<ZZ, grlex>(x * (x * x - o * RQ(3)), &grlex::init)}; auto R = realroot(F).first; string s = to_string(R.size()); for (auto& a : R) for (auto& b : R) s += a < b ? "<" : a == b ? "=" : ">"; return s; }, ""});
    ops->push_back({"groebner", [=] { vector<polynomial_QQ> F{L<QQ, grlex>(x * y - z, &grlex::init), L<QQ, grlex>(y * y - x, &grlex::init), L<QQ, grlex>(x * z - o * RQ(2), &grlex::init)}; string s; for (auto& g : groebner_basis(F)) s += from(g, N).str() + ";"; return s; }, ""});
    ops->push_back({"charset", [=] { vector<polynomial_<ZZ, lex_<custom_var_order>>> F{L<ZZ, lex_<custom_var_order>>(x * y - z, &lc), L<ZZ, lex_<custom_var_order>>(y * y - x * z, &lc)}; string s; for (auto& T : Wucharset(F)) { for (auto& p : T) s += sgn(from(p, N)) + ";"; s += "/"; } return s; }, ""});
    ops->push_back({"text", [=] { ostringstream s; s << L<ZZ, grlex>(x * y * RQ(-3) + z * z - o, &grlex::init) << L<QQ, lex>(x * RQ(q("1/2")) - t * t, &lex::init); return s.str(); }, ""});
    static lex_<custom_var_order> zc(custom_var_order({X[1], X[0], X[2], X[3]}));
    for (uint64_t P : {101ull, 4611686018427387847ull}) {
        auto zp = [=](const RP& p) { uint64_t m = MOD; MOD = P; auto r = L<Zp, grlex>(p, &grlex::init); MOD = m; return r; }; auto tx = [=](const auto& p) { string s; for (auto& e : p) s += to_string(e.second.number()) + (e.second.prime() == P ? "" : "!") + " "; return s; };
        ops->push_back({"zp arithmetic " + to_string(P), [=] { auto a = zp(x * y * RQ(3) + z - o), b = zp(x + y * RQ(5) + o); string s = tx(a + b) + "/" + tx(a - b) + "/" + tx(a * b) + "/" + tx(pow(b, 5)) + "/" + tx((a * b) / b) + "/" + tx(derivative(a * b, X[1])) + "/" + tx(a * b - b * a) + "/" + tx(-a); return s; }, ""});
        ops->push_back({"zp univariate " + to_string(P), [=] { auto mk = [=](vector<int> c) { upolynomial_<Zp> f; for (size_t i = 0; i < c.size(); ++i) if (c[i]) f.push_back({umonomial(c.size() - 1 - i), Zp(c[i], P)}); return f; }; auto f = mk({1, 0, -3, 7}), g = mk({2, 5, 1}), h = mk({1, 0, 0, 0, 1}); auto d = polynomial_GCD(f * g * g, g * h); string s = tx(d) + "/" + tx(f * g + h) + "/" + tx(pow(g, 4)) + "/" + tx((f * g) / g) + "/" + tx(derivative(f * h)) + "/" + to_string(assign(f * g, Zp(9, P)).number()); return s; }, ""});
    }
    ops->push_back({"zz arithmetic", [=] { auto a = L<ZZ, lex_<custom_var_order>>(x * y * RQ(3) + z - big, &zc), b = L<ZZ, lex_<custom_var_order>>(x + y * RQ(5) + o, &zc); ostringstream s; s << a + b << "/" << a * b << "/" << pow(b, 4) << "/" << (a * b) / b << "/" << prem(a * a, b, X[1]) << "/" << derivative(a * b, X[0]) << "/" << cont(a * ZZ(6)); return s.str(); }, ""});
    ops->push_back({"qq arithmetic", [=] { auto a = L<QQ, grlex>(x * y * q("3/7") + z - big, &grlex::init), b = L<QQ, grlex>(x * q("1/2") + y * RQ(5) + o, &grlex::init); ostringstream s; s << a + b << "/" << a * b << "/" << pow(b, 3) << "/" << (a * b) / b << "/" << derivative(a * b, X[0]); return s.str(); }, ""});
    // disturbances: answers are fixed text
    for (uint64_t p : {2ull, 7ull, 4611686018427387847ull}) ops->push_back({"set_prime " + to_string(p), [=] { Zp::set_prime(p); Zp a(3), b; return string(to_string(a.prime()) + " " + to_string(b.prime()) + " " + to_string(a.number())); }, ""});
    ops->push_back({"new variables", [=] { vector<variable> w; for (int i = 0; i < 20; ++i) w.push_back(variable("tmp_c24_" + to_string(i))); polynomial_ZZ p = polynomial_ZZ(w[3]) * w[17] + ZZ(1); auto g = gcd(p * p, p * polynomial_ZZ(w[1])); ostringstream s; s << (g == p || g == -p); for (int i = 0; i < 20; ++i) variable::del_variable("tmp_c24_" + to_string(i)); return s.str(); }, ""});
    ops->push_back({"zp factor", [=] { upolynomial_<Zp> f; for (auto& e : {3, 1, 0}) f.push_back({umonomial(e), Zp(e + 1, 101)}); auto g = f * f; auto d = polynomial_GCD(g, f); ostringstream s; s << d.size() << " " << get_deg(d); return s.str(); }, ""});
}
static string fresh(const Op& o) { int fd[2]; if (pipe(fd)) abort(); pid_t c = fork(); if (!c) { string s; try { vrand::reset(0); s = "=" + o.f(); } catch (vh::Fail& e) { s = "!" + e.msg; } catch (exception& e) { s = string("!") + e.what(); } size_t off = 0; while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; } _exit(0); } close(fd[1]); string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n); close(fd[0]); int st; waitpid(c, &st, 0); return r; }
// runs a history in a process of its own so that it starts from the state of a fresh process
static void isolated(const function<void()>& f) { int fd[2]; if (pipe(fd)) abort(); pid_t c = fork(); if (!c) { string s; try { f(); } catch (vh::Fail& e) { s = e.msg; } catch (exception& e) { s = string("exception ") + e.what(); } size_t off = 0; while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += w; } _exit(s.empty() ? 0 : 3); } close(fd[1]); string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n); close(fd[0]); int st = 0; waitpid(c, &st, 0); CHECK(!WIFSIGNALED(st), "process died: signal " << WTERMSIG(st)); CHECK(WEXITSTATUS(st) == 0, r); }
static void again(size_t i, const string& w) { auto& o = (*ops)[i]; uint64_t pr = Zp::cur_prime(); string s = "=" + o.f(); vh::step(); CHECK(o.want.size() && o.want[0] == '=', o.name << " fails in a fresh process: " << o.want); CHECK(s == o.want, o.name << w << " gives " << s.substr(1) << ", in a fresh process " << o.want.substr(1)); if (o.name.rfind("set_prime", 0) != 0) CHECK(Zp::cur_prime() == pr, o.name << " changes the selected prime"); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(N); bool T = vh::thorough; catalogue(); for (auto& o : *ops) o.want = fresh(o); uint64_t m = ops->size(); vh::aux_names[0] = "draw sequences"; static const vector<unsigned char> menu{1, 2, 3, 4, 5, 16 + 2, 16 + 3};
        auto names = [=](uint64_t i, int len) { string s; for (int j = 0; j < len; ++j, i /= m) s += (j ? ", " : "") + (*ops)[i % m].name; return s; };
        for (int len = 1; len <= 3; ++len) { uint64_t n = vh::ipow(m, len); vh::scope("history." + to_string(len), n, [=](uint64_t i) { if (len == 3 && !T && (i / m % m) % 3 != 0) return; string h; isolated([&] { vrand::reset(i % 3); string h; uint64_t c = i; for (int j = 0; j < len; ++j, c /= m) { again(c % m, h.empty() ? "" : " after " + h); h += (h.empty() ? "" : ", ") + (*ops)[c % m].name; } }); for (int j = 0; j < len; ++j) vh::step(); h = names(i, len); vh::state(vh::mix(i) ^ len); vh::outcome(h); }, [=](uint64_t i) { return names(i, len); }); }
        // every draw sequence with bounded deviations from several default streams, then repeated without a reset in between
        auto draws = [=](string nm, uint64_t hor, uint64_t S, int depth, uint64_t base) { uint64_t fs = vrand::firsts(hor, menu); vh::scope(nm, m * S * fs, [=](uint64_t i) { size_t op = i / S / fs; uint64_t st = i / fs % S; int64_t first = i % fs; uint64_t runs = vrand::deviations(base + st, depth, hor, menu, [&] { again(op, " with draws " + to_string(vrand::C.stream)); }, first); vh::aux(0, runs); vh::state(vh::mix(i) ^ base); }, [=](uint64_t i) { return (*ops)[i / S / fs].name + " stream " + to_string(i / fs % S) + " first deviation " + to_string(i % fs); }); };
        draws("draws", T ? 16 : 10, T ? 12 : 4, 2, 100); if (T) draws("draws.3", 6, 3, 3, 300);
        vh::scope("streams", m * (T ? 400 : 100), [=](uint64_t i) { vrand::reset(1000 + i / m); for (int r = 0; r < 3; ++r) again(i % m, " repeated with stream " + to_string(i / m)); vh::state(vh::mix(i) ^ 98); }, [=](uint64_t i) { return (*ops)[i % m].name + " stream " + to_string(i / m); });
    });
}
