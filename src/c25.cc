// C25: equality, ordering, hashing, text output, copy/move histories of polynomials.
#include "poly.hh"
#include <unordered_set>
using namespace rp; using namespace std;
// reads the printed text as ordinary algebra: +,-,*,/,^ over integers and names x0..x9 ('#' = x0)
struct Parser {
    string s; size_t p = 0; int n;
    [[noreturn]] void bad() { vh::fail("printed text is not algebra: " + s); }
    int peek() { return p < s.size() ? (unsigned char)s[p] : -1; }
    RP expr() { RP r; bool first = true; while (true) { int sg = 1; if (peek() == '+' || peek() == '-') { while (peek() == '+' || peek() == '-') { if (s[p] == '-') sg = -sg; ++p; } } else if (!first) return r; RP t = term(); r = sg > 0 ? r + t : r - t; first = false; } }
    RP term() { RP r = factor(); while (peek() == '*' || peek() == '/') { char o = s[p++]; RP f = factor(); if (o == '*') r = r * f; else { if (!f.is_const() || f.zero()) bad(); r = r * (RQ(1) / f.cst()); } } return r; }
    int64_t num() { if (!isdigit(peek())) bad(); int64_t v = 0; while (isdigit(peek())) v = v * 10 + (s[p++] - '0'); return v; }
    RP factor() {
        RP b; if (isdigit(peek())) { string d; while (isdigit(peek())) d += s[p++]; b = RP::c(RQ(RZ(d)), n); }
        else if (peek() == '#') { ++p; b = RP::x(0, n); } else if (peek() == 'x') { ++p; int64_t i = num(); if (i >= n) bad(); b = RP::x(i, n); } else bad();
        if (peek() == '^') { ++p; int64_t e = num(); RP r; for (auto& t : b.t) { Mon m = t.first; for (auto& k : m) k *= e; if (e && b.is_const()) bad(); r.t[m] = t.second; } b = r; }
        return b;
    }
    static RP read(const string& t, int n) { Parser q; q.s = t; q.n = n; if (t.empty()) vh::fail("empty text"); RP r = q.expr(); if (q.p != t.size()) q.bad(); return r.red(); }
};
template <class P> string show(const P& f) { ostringstream o; o << f; return o.str(); }
template <class P, class F> void text(const P& f, const RP& a, int n, F) {
    string s = show(f); vh::step(3); CHECK(s == f.str(), "str() and << differ: " << s); CHECK(s.find(' ') == string::npos, "blank in text"); RP b = Parser::read(s, n); CHECK(b == a, "the polynomial " << a << " prints as " << s << " which denotes " << b); vh::outcome(s);
}
template <class P> constexpr bool HASHABLE = true; template <class Tc> constexpr bool HASHABLE<upolynomial_<Tc>> = false; // the library gives univariate polynomials no hash
template <class P> size_t h(const P& p) { if constexpr (HASHABLE<P>) return std::hash<P>()(p); else return 0; }
template <class Tc> constexpr bool HASORD = !is_same_v<Tc, Zp>;
template <class P, class Tc> void pairs(const string& name, vector<RP> A, uint64_t mod, int n, function<P(const RP&)> mk, bool hashable = true) {
    MOD = mod; for (auto& a : A) a = a.red(); A = uniq(A); auto pa = make_shared<vector<RP>>(A); auto pl = make_shared<vector<P>>(); auto ps = make_shared<vector<string>>(); auto phs = make_shared<vector<size_t>>();
    for (auto& a : A) { pl->push_back(mk(a)); ps->push_back(show(pl->back())); } uint64_t k = A.size();
    vh::scope(name + ".pairs", k * k, [=](uint64_t q) {
        MOD = mod; const P &f = (*pl)[q / k], &g = (*pl)[q % k]; const RP &a = (*pa)[q / k], &b = (*pa)[q % k]; bool e = q / k == q % k; vh::step(4);
        CHECK((f == g) == e && (f != g) == !e, "equality of " << a << " and " << b); CHECK(((*ps)[q / k] == (*ps)[q % k]) == e || !e && mod, "distinct polynomials print alike: " << a << " and " << b << " as " << (*ps)[q / k]);
        if constexpr (HASORD<Tc>) { CHECK(int(f < g) + int(f > g) + int(f == g) == 1 && (f < g) == (g > f) && (f <= g) == !(f > g) && (f >= g) == !(f < g), "ordering of " << a << " and " << b); }
        // the same value reached another way is equal, hashes and prints alike
        if (!(mod && (a.zero() || b.zero()))) { P s = (f + g) - g; CHECK(s == f && show(s) == (*ps)[q / k] && h(s) == h(f), a << " + " << b << " - the latter is not identical to the former"); P t = f - (f - g); CHECK(t == g && show(t) == (*ps)[q % k] && h(t) == h(g), "f-(f-g) is not identical to g for " << a << " , " << b); 
        if (!b.zero()) { P m = (f * g) / g; CHECK(m == f && h(m) == h(f) && show(m) == (*ps)[q / k], "(f*g)/g is not identical to f for " << a << " , " << b); } }
        if (e) { text(f, a, n, 0); CHECK(from(f, n, "polynomial") == a, "conversion"); }
        vh::state(vh::mix(q) ^ vh::hstr(name));
    }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pa)[q % k].str(); });
    if constexpr (HASORD<Tc>) { uint64_t m = min<uint64_t>(k, 60), st = max<uint64_t>(1, k / m);
        vh::scope(name + ".order", m * m * m, [=](uint64_t q) { auto &f = (*pl)[q / m / m * st], &g = (*pl)[q / m % m * st], &r = (*pl)[q % m * st]; vh::step(); if (f < g && g < r) CHECK(f < r, "ordering is not transitive on " << f << " , " << g << " , " << r); }, [=](uint64_t q) { return (*pa)[q / m / m * st].str() + " , " + (*pa)[q / m % m * st].str() + " , " + (*pa)[q % m * st].str(); }); }
    // sets keyed by polynomials: one entry per distinct value; list output
    vh::scope(name + ".sets", k, [=](uint64_t q) { MOD = mod; auto &f = (*pl)[q]; const P& g = (*pl)[(q * 7 + 3) % k]; set<RP> R; const RP &a = (*pa)[q], &b = (*pa)[(q * 7 + 3) % k]; R.insert(a); R.insert(b); R.insert((a + b).red()); if constexpr (HASHABLE<P>) { unordered_set<P> S; for (auto& x : {f, g, f, P(g), f + g, (f + g) - g}) S.insert(x); CHECK(S.size() == R.size(), "hash set holds " << S.size() << " entries for " << R.size() << " values"); }
        if constexpr (HASORD<Tc>) { set<P> O; for (auto& x : {f, g, f, P(g), f + g, (f + g) - g}) O.insert(x); CHECK(O.size() == R.size(), "ordered set holds " << O.size() << " entries"); }
        vector<P> l{f, g}; CHECK(show(l) == "[ " + show(f) + " , " + show(g) + " ]", "list text " << show(l)); vh::step(3); }, [=](uint64_t q) { return (*pa)[q].str(); });
}
// all histories of copies, moves, swaps, clears, updates over three objects
template <class P> void histories(const string& name, vector<RP> V, uint64_t mod, int n, function<P(const RP&)> mk, int depth, bool alg = true) {
    MOD = mod; for (auto& v : V) v = v.red(); struct Op { int k, i, j; }; auto ops = make_shared<vector<Op>>();
    for (int i = 0; i < 3; ++i) { ops->push_back({2, i, i}); for (int j = 0; j < 3; ++j) { ops->push_back({0, i, j}); if (alg) { ops->push_back({5, i, j}); ops->push_back({6, i, j}); } if (i != j) { ops->push_back({1, i, j}); if (i < j) ops->push_back({3, i, j}); ops->push_back({4, i, j}); ops->push_back({7, i, j}); } } }
    uint64_t N = ops->size(); static const char* nm[] = {"copy", "move", "clear", "swap", "construct-by-move", "add", "mul", "push-all"};
    vh::scope(name, vh::ipow(N, depth), [=](uint64_t q) {
        MOD = mod; vector<P> o{mk(V[0]), mk(V[1]), mk(V[2])}; vector<RP> r{V[0], V[1], V[2]}; vector<int> valid(3, 1); auto t = q; string hist;
        for (int s = 0; s < depth; ++s) {
            auto x = (*ops)[t % N]; t /= N; hist += string(" ") + nm[x.k] + to_string(x.i) + to_string(x.j);
            auto src = [&](int j) { return valid[j]; };
            switch (x.k) {
            case 0: if (!src(x.j)) return; o[x.i] = o[x.j]; r[x.i] = r[x.j]; valid[x.i] = 1; break;
            case 1: if (!src(x.j)) return; o[x.i] = std::move(o[x.j]); r[x.i] = r[x.j]; valid[x.i] = 1; valid[x.j] = 0; break;
            case 2: o[x.i].clear(); r[x.i] = RP(); valid[x.i] = 1; break;
            case 3: if (!src(x.i) || !src(x.j)) return; o[x.i].swap(o[x.j]); std::swap(r[x.i], r[x.j]); break;
            case 4: { if (!src(x.j)) return; P y(std::move(o[x.j])); valid[x.j] = 0; o[x.i] = y; r[x.i] = r[x.j]; valid[x.i] = 1; break; }
            case 5: if (!src(x.i) || !src(x.j)) return; o[x.i] = o[x.i] + o[x.j]; r[x.i] = (r[x.i] + r[x.j]).red(); break;
            case 6: if (!src(x.i) || !src(x.j)) return; if (r[x.i].t.size() * r[x.j].t.size() > 60) return; o[x.i] = o[x.j] * o[x.i]; r[x.i] = (r[x.i] * r[x.j]).red(); break;
            case 7: { if (!src(x.j)) return; o[x.i].clear(); o[x.i].comp(o[x.j].comp_ptr()); for (auto& m : o[x.j]) o[x.i].push_back(m); o[x.i].normalization(); r[x.i] = r[x.j]; valid[x.i] = 1; break; }
            }
            vh::step(); for (int i = 0; i < 3; ++i) if (valid[i]) CHECK(from(o[i], n, "object") == r[i], "after" << hist << " object " << i << " is " << from(o[i], n) << ", expected " << r[i]);
        }
        string st; for (int i = 0; i < 3; ++i) st += valid[i] ? r[i].str() + ";" : "?;"; vh::state(name + st);
    }, [=](uint64_t q) { string s; for (int k = 0; k < depth; ++k, q /= N) { auto x = (*ops)[q % N]; s += string(nm[x.k]) + "(" + to_string(x.i) + "," + to_string(x.j) + ") "; } return s; });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(5); bool T = vh::thorough; RQ w(RZ("9223372036854775807")), big(RZ("123456789012345678901234567890"));
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static univariate_priority_order up1(X[1]); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]}));
        auto Z2 = sparse(monos_deg(2, 2), {RQ(-1), RQ(1), RQ(-2), RQ(10)}, 2), D2 = dense(monos_deg(2, T ? 2 : 1), ints(-2, 2)), Z3 = sparse(monos_box({1, 1, 1}), {RQ(-1), RQ(1), RQ(3)}, 2), B = sparse(monos_deg(2, 1), {w, -w - 1, big, RQ(-1), w + 1, w * 2}, 2), Q2 = sparse(monos_deg(2, 2), {RQ(1, 2), RQ(-1), RQ(-7, 3), RQ(1)}, 2);
        auto L = [](const auto* c, auto tag) { typedef decltype(tag) Tc; typedef std::remove_const_t<std::remove_pointer_t<decltype(c)>> C; return function<polynomial_<Tc, C>(const RP&)>([c](const RP& a) { return lib<Tc, C>(a, c); }); };
        pairs<polynomial_ZZ, ZZ>("ZZ.2v", Z2, 0, 2, L(&grlex::init, ZZ())); pairs<polynomial_ZZ, ZZ>("ZZ.dense", T ? sparse(monos_deg(2, 2), ints(-2, 2), 3) : D2, 0, 2, L(&grlex::init, ZZ())); pairs<polynomial_ZZ, ZZ>("ZZ.word", B, 0, 2, L(&grlex::init, ZZ()));
        pairs<polynomial_<ZZ, lex>, ZZ>("ZZ.lex", Z3, 0, 3, L(&lex::init, ZZ())); pairs<polynomial_<ZZ, lex_<custom_var_order>>, ZZ>("ZZ.lexc", Z3, 0, 3, L(&lc, ZZ())); pairs<polynomial_<ZZ, grlex_<custom_var_order>>, ZZ>("ZZ.grlexc", Z3, 0, 3, L(&gc, ZZ())); pairs<polynomial_<ZZ, univariate_priority_order>, ZZ>("ZZ.up1", Z3, 0, 3, L(&up1, ZZ()));
        pairs<polynomial_QQ, QQ>("QQ.2v", Q2, 0, 2, L(&grlex::init, QQ())); pairs<polynomial_<QQ, lex>, QQ>("QQ.lex", Q2, 0, 2, L(&lex::init, QQ()));
        for (uint64_t p : {2ull, 3ull, 7ull, 18446744073709551557ull}) pairs<polynomial_<Zp>, Zp>("Zp" + to_string(p), sparse(monos_deg(2, 2), {RQ(-1), RQ(1), RQ(2), RQ(3)}, 2), p, 2, L(&grlex::init, Zp()));
        pairs<upolynomial_ZZ, ZZ>("ZZ.u", dense(monos_box({3}), {RQ(0), RQ(-1), RQ(1), RQ(-2), RQ(12)}), 0, 1, [](const RP& a) { return ulib<ZZ>(a); }); pairs<upolynomial_<QQ>, QQ>("QQ.u", dense(monos_box({2}), {RQ(0), RQ(-1), RQ(1), RQ(-2, 3), RQ(5, 4)}), 0, 1, [](const RP& a) { return ulib<QQ>(a); });
        RP x = RP::x(0, 2), y = RP::x(1, 2), one = RP::c(1, 2); int D = T ? 4 : 3;
        histories<polynomial_ZZ>("ZZ.histories", {x * x - y * RQ(3), RP(), one * big + x}, 0, 2, L(&grlex::init, ZZ()), D); histories<polynomial_<ZZ, lex_<custom_var_order>>>("ZZ.lexc.histories", {x * x - y * RQ(3), RP(), one * big + x}, 0, 2, L(&lc, ZZ()), D);
        histories<polynomial_QQ>("QQ.histories", {x * RQ(1, 2) - y, one * RQ(-2, 3), y * y + x * y}, 0, 2, L(&grlex::init, QQ()), D); histories<polynomial_<Zp>>("Zp.histories", {x + one, y - one, x * y}, 5, 2, L(&grlex::init, Zp()), D);
        RP u = RP::x(0, 1), o1 = RP::c(1, 1); histories<upolynomial_ZZ>("ZZ.u.histories", {u * u - o1, RP(), o1 * big + u}, 0, 1, [](const RP& a) { return ulib<ZZ>(a); }, D);
        // objects of one type that carry different variable orders
        static lex_<custom_var_order> ox(custom_var_order({X[0], X[1]})), oy(custom_var_order({X[1], X[0]})); static grlex_<custom_var_order> gx(custom_var_order({X[0], X[1]})), gy(custom_var_order({X[1], X[0]}));
        for (auto& V : vector<vector<RP>>{{x * x + y, RP(), y * y * y + x * RQ(2)}, {RP(), x + y * y, x * x - y}, {x + y, x * y * y + x * x, RP()}}) { string s = V[0].str(); auto k = make_shared<int>(0), l = make_shared<int>(0); histories<polynomial_<ZZ, lex_<custom_var_order>>>("orders.lex." + s, V, 0, 2, [k](const RP& a) { return lib<ZZ, lex_<custom_var_order>>(a, (*k)++ % 3 == 1 ? &oy : &ox); }, D, false); histories<polynomial_<ZZ, grlex_<custom_var_order>>>("orders.grlex." + s, V, 0, 2, [l](const RP& a) { return lib<ZZ, grlex_<custom_var_order>>(a, (*l)++ % 3 == 1 ? &gy : &gx); }, D, false); }
        // looking a term up by its monomial
        static auto F = sparse(monos_deg(2, 2), ints(1, 2), 3); static auto MS = monos_deg(2, 3);
        vh::scope("find", F.size(), [](uint64_t q) { MOD = 0; auto f = lib<ZZ>(F[q]); const auto& cf = f; for (auto& m : MS) { auto it = F[q].t.find(m); auto k = cf.find(mono(m, &grlex::init)); vh::step(); CHECK((k != cf.end()) == (it != F[q].t.end()), "find in " << f); if (k != cf.end()) CHECK(rp::cref(k->second) == it->second, "find in " << f << " returns another term"); } CHECK(f.is_normal(), "is_normal of " << f); }, [](uint64_t q) { return F[q].str(); });
    });
}
