// C05: monomial algebra and monomial orders.
#include "poly.hh"
#include <boost/functional/hash.hpp>
using namespace rp; using namespace std;
static vector<vector<variable>> seqs(int n) {   // all ordered selections of distinct variables
    vector<vector<variable>> r; vector<variable> cur; vector<int> used(n, 0);
    function<void()> rec = [&] { r.push_back(cur); for (int i = 0; i < n; ++i) if (!used[i]) { used[i] = 1; cur.push_back(X[i]); rec(); cur.pop_back(); used[i] = 0; } };
    rec(); return r;
}
template <class comp> struct Obj { string name; comp c; int n; vector<Mon> M; vector<basic_monomial<comp>> L; Ord o; };
template <class comp> void addm(const string& name, comp cc, int n, vector<Mon> M, bool triples) {
    auto b = new Obj<comp>{name, cc, n, M, {}, {}}; b->o = ord_of(b->c); for (auto& m : M) b->L.push_back(mono(m, &b->c));
    uint64_t k = M.size();
    auto plus = [](const Mon& a, const Mon& c, int s) { Mon r = a; for (size_t i = 0; i < r.size(); ++i) r[i] += s * c[i]; return r; };
    auto eq = [=](const basic_monomial<comp>& m, const Mon& r, const string& w) { vh::step(); Mon g = mref(m, n, &b->o); CHECK(g == r, name << ": " << w << " is " << m.str()); CHECK(comp_consistent(m.comp(), b->c), name << ": " << w << " carries another order"); CHECK(m.is_normal(), name << ": " << w << " is not in normal form"); };
    vh::scope(name + ".pairs", k * k, [=](uint64_t q) {
        const Mon &x = b->M[q / k], &y = b->M[q % k]; auto &a = b->L[q / k], &c = b->L[q % k]; string d = a.str() + " , " + c.str();
        bool gt = b->o.gt(x, y), lt = b->o.gt(y, x);
        vh::step(8);
        CHECK(b->c(a, c) == gt && b->c(c, a) == lt, name << ": order compares " << d << " wrongly");
        CHECK((a == c) == (x == y) && (a != c) == (x != y), name << ": == on " << d);
        CHECK((a > c) == (c < a) && (a >= c) == !(a < c) && (a <= c) == !(a > c) && int(a > c) + int(a < c) + int(a == c) == 1, name << ": < > <= >= == are inconsistent on " << d);
        if (b->o.graded) CHECK((a > c) == gt, name << ": operator> on " << d);
        if (x == y) CHECK(std::hash<basic_monomial<comp>>()(a) == std::hash<basic_monomial<comp>>()(c) && hash_value(a) == hash_value(c) && a.str() == c.str(), "equal monomials hash or print differently");
        eq(a * c, plus(x, y, 1), "product of " + d); eq(a / c, plus(x, y, -1), "quotient of " + d);
        Mon l = x; for (int i = 0; i < n; ++i) l[i] = max(x[i], y[i]); eq(lcm(a, c), l, "lcm of " + d);
        bool dv = true; for (int i = 0; i < n; ++i) if (x[i] < y[i]) dv = false;
        basic_monomial<comp> r(&b->c), s(&b->c); bool ld = is_divexact(r, a, c); CHECK(ld == dv, name << ": divisibility of " << d << " reported " << ld); if (dv) eq(r, plus(x, y, -1), "exact quotient of " + d);
        s = a; bool l2 = is_divexact(s, s, c); CHECK(l2 == dv, name << ": divisibility (aliased) of " << d); if (dv) eq(s, plus(x, y, -1), "aliased exact quotient");
        s = a; __mono_mult__(s, s, c); eq(s, plus(x, y, 1), "aliased product"); s = c; __mono_mult__(s, a, s); eq(s, plus(x, y, 1), "aliased product 2"); s = a; s = s * s; eq(s, plus(x, x, 1), "square");
        // order is compatible with multiplication by c, and 1 is the smallest monomial
        for (size_t t = 0; t < k; t += triples ? 1 : 5) if (gt != b->c(a * b->L[t], c * b->L[t])) vh::fail(name + ": order not compatible with multiplication: " + d + " times " + b->L[t].str());
        if (triples) for (size_t t = 0; t < k; ++t) if (gt && b->c(c, b->L[t]) && !b->c(a, b->L[t])) vh::fail(name + ": order not transitive on " + d + " , " + b->L[t].str());
        s = a; r = c; s.swap(r); eq(s, y, "swap"); eq(r, x, "swap"); r = std::move(s); eq(r, y, "move"); s = a; eq(s, x, "reuse after move"); s.clear(); eq(s, Mon(n, 0), "clear");
        vh::state(vh::mix(q) ^ vh::hstr(name));
    }, [=](uint64_t q) { return b->L[q / k].str() + " , " + b->L[q % k].str(); });
    vh::scope(name + ".single", k, [=](uint64_t q) {
        const Mon& x = b->M[q]; auto& a = b->L[q]; int64_t td = 0; for (auto e : x) td += e;
        CHECK(a.deg() == td, name << ": degree of " << a.str()); for (int i = 0; i < n; ++i) { CHECK(a.deg(X[i]) == x[i], name << ": degree of " << a.str() << " in x" << i); CHECK((a.find(X[i]) != a.end()) == (x[i] != 0), "find"); }
        CHECK(a.deg(X[n]) == 0, "degree in an absent variable"); CHECK(a.empty() == (td == 0), "empty");
        for (int e = 0; e <= 3; ++e) { Mon r = x; for (auto& v : r) v *= e; eq(pow(a, e), r, "power"); }
        // any arrangement of the factors, with repeats and zero exponents, normalises to the same monomial
        vector<std::pair<variable, int64_t>> f; for (int i = 0; i < n; ++i) { if (x[i] > 1) { f.push_back({X[i], 1}); f.push_back({X[i], x[i] - 1}); } else f.push_back({X[i], x[i]}); }
        sort(f.begin(), f.end(), [](auto& p, auto& q) { return p.first.serial() != q.first.serial() ? p.first.serial() < q.first.serial() : p.second < q.second; });
        int cnt = 0; do { basic_monomial<comp> m(&b->c); for (auto& p : f) m.push_back(p); m.normalization(); eq(m, x, "normalised " + a.str()); CHECK(m == a, "normalised != original"); basic_monomial<comp> m2(&b->c); m2 = f; eq(m2, x, "assigned"); } while (++cnt < 720 && next_permutation(f.begin(), f.end(), [](auto& p, auto& q) { return p.first.serial() != q.first.serial() ? p.first.serial() < q.first.serial() : p.second < q.second; }));
        auto p = a; if (!p.empty()) { auto l = p.back(); p.pop_back(); Mon r = x; for (int i = 0; i < n; ++i) if (l.first == X[i]) r[i] = 0; eq(p, r, "pop_back"); p.push_back(l); eq(p, x, "push_back"); }
        vh::state(vh::mix(q) ^ vh::hstr(name + "s"));
    }, [=](uint64_t q) { return b->L[q].str(); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(6); bool T = vh::thorough; auto M3 = monos_box(T ? vector<int>{4, 4, 3} : vector<int>{3, 3, 2}), M4 = monos_deg(4, T ? 5 : 4);
        addm<grlex>("grlex3", grlex(), 3, monos_box({3, 2, 2}), true); addm<lex>("lex3", lex(), 3, monos_box({3, 2, 2}), true); addm<grlex>("grlex4", grlex(), 4, M4, false); addm<lex>("lex4", lex(), 4, M4, false); addm<grlex>("grlex1", grlex(), 1, monos_box({9}), true);
        int i = 0; for (auto& s : seqs(3)) { string nm; for (auto& v : s) nm += v.str(); addm<lex_<custom_var_order>>("lex[" + nm + "]", lex_<custom_var_order>(custom_var_order(s)), 3, M3, true); addm<grlex_<custom_var_order>>("grlex[" + nm + "]", grlex_<custom_var_order>(custom_var_order(s)), 3, M3, true); ++i; }
        for (int v = 0; v < 4; ++v) { addm<univariate_priority_order>("univariate[x" + to_string(v) + "]", univariate_priority_order(X[v]), v < 3 ? 3 : 4, v < 3 ? M3 : M4, v < 3); addm<grlex_<univariate_order>>("gr-univariate[x" + to_string(v) + "]", grlex_<univariate_order>(X[v]), v < 3 ? 3 : 4, v < 3 ? M3 : M4, v < 3); }
        // exponents large enough that degree sums and differences need the full word
        vector<Mon> big; vector<int64_t> e{0, 1, (1ll << 31) - 1, 1ll << 31, 1ll << 32, 1ll << 40, 1ll << 61}; for (auto a : e) for (auto b : e) big.push_back({a, b}); addm<grlex>("grlex.big", grlex(), 2, big, false); addm<lex>("lex.big", lex(), 2, big, false);
        // variables: total order used by every monomial order
        vh::scope("variable-orders", 16 * 216, [](uint64_t q) { auto S = seqs(3)[q / 216]; custom_var_order c(S); uint64_t r = q % 216; variable a = X[r % 6], b = X[r / 6 % 6], d = X[r / 36]; univariate_order u(S.empty() ? X[4] : S[0]); clpoly::less l;
            auto chk = [&](auto& f, const char* w) { CHECK(int(f(a, b)) + int(f(b, a)) + int(a == b) == 1, w << " is not total/strict on " << a << "," << b); CHECK(!(f(a, b) && f(b, d)) || f(a, d), w << " is not transitive"); vh::step(); };
            chk(c, "custom order"); chk(u, "univariate order"); chk(l, "default order"); for (size_t i = 0; i < S.size(); ++i) for (size_t j = i + 1; j < S.size(); ++j) CHECK(c(S[i], S[j]), "custom order ignores the listed order"); for (auto& s : S) for (auto& x : X) { bool in = find(S.begin(), S.end(), x) != S.end(); if (!in) CHECK(c(s, x), "listed variables must come first"); } for (auto& x : X) if (x != u.v) CHECK(u(u.v, x), "univariate order must rank its variable first"); vh::state(q); });
        // products and powers of variables
        vh::scope("variables", 36 * 4, [](uint64_t q) { variable a = X[q % 6], b = X[q / 6 % 6]; int e = q / 36; Mon r(6, 0); r[q % 6]++; r[q / 6 % 6]++; Ord o = ord_of(grlex::init); monomial m = a * b; CHECK(mref(m, 6, &o) == r, a << "*" << b << " is " << m.str()); r = Mon(6, 0); r[q % 6] = e; m = pow(a, e); CHECK(mref(m, 6, &o) == r, "pow(" << a << "," << e << ") is " << m.str()); vh::step(2); vh::state(q ^ 1ull << 40); });
    });
}
