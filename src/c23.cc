// C23: random generators honour their contracts for every outcome of the random source.  Every draw is chosen by the explorer (verif_random.hh).
#include "poly.hh"
#include <clpoly/random.hh>
using namespace rp; using namespace std;
static uint64_t LIMIT = 3000;
// all outcomes of f's draws: the number of explored draws grows until every draw is explored or the number of runs passes LIMIT; returns whether every outcome was run
template <class F> static bool outcomes(const F& f, uint64_t cap = 64) { for (uint64_t H = 1;; ++H) { uint64_t most = 0; bool wide = false; uint64_t runs = vrand::all(1, H, cap, [&] { f(); most = max<uint64_t>(most, vrand::C.n); for (auto w : vrand::width) wide |= w >= cap; }); vh::step(runs); vh::aux(0, runs); if (most <= H) return !wide; if (runs > LIMIT || H > 40) return false; } }
static uint64_t binom(uint64_t n, uint64_t k) { if (k > n) return 0; unsigned __int128 r = 1; for (uint64_t i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return (uint64_t)r; }
template <class T> static string ls(const vector<T>& v) { ostringstream o; o << "("; for (auto& x : v) o << x << " "; o << ")"; return o.str(); }
static void selection(size_t m, size_t n, bool nr) {
    string w = "random_select(" + to_string(m) + ", " + to_string(n) + ", " + (nr ? "true" : "false") + ")"; set<vector<size_t>> got; size_t want = nr ? min(m, n) : n; bool top = false, bot = false;
    bool full = outcomes([&] { auto v = random_select(m, n, nr); CHECK(v.size() == want, w << " returned " << v.size() << " values"); for (auto x : v) { CHECK(x < m, w << " returned " << x); top |= x == m - 1; bot |= x == 0; } sort(v.begin(), v.end()); if (nr) CHECK(unique(v.begin(), v.end()) == v.end(), w << " repeats a value: " << ls(v)); got.insert(v); });
    if (want) CHECK(top && bot, w << " never returns " << (bot ? "the last" : "the first") << " value"); if (full) { uint64_t all = nr ? binom(m, want) : binom(m + n - 1, n); CHECK(got.size() == all, w << " can only return " << got.size() << " of the " << all << " selections"); vh::aux(1); } for (auto& v : got) vh::outcome(w + ls(v)); vh::state(vh::hstr(w)); }
template <class T> static void sample(const vector<T>& l, size_t n) {
    string w = "RandomSample(" + ls(l) + ", " + to_string(n) + ")"; set<vector<T>> got; bool full = outcomes([&] { auto v = RandomSample(l, n); CHECK(v.size() == min(n, l.size()), w << " returned " << v.size() << " values"); auto s = v; sort(s.begin(), s.end()); for (auto& x : s) CHECK(count(s.begin(), s.end(), x) <= count(l.begin(), l.end(), x), w << " returned " << ls(v) << ", more copies of " << x << " than given"); got.insert(s); });
    if (full) { set<vector<T>> want; size_t k = l.size(); for (uint32_t b = 0; b < (1u << k); ++b) if ((size_t)__builtin_popcount(b) == min(n, k)) { vector<T> s; for (size_t i = 0; i < k; ++i) if (b >> i & 1) s.push_back(l[i]); sort(s.begin(), s.end()); want.insert(s); } CHECK(got == want, w << " can only return " << got.size() << " of the " << want.size() << " samples"); vh::aux(1); } for (auto& v : got) vh::outcome(w + ls(v)); vh::state(vh::hstr(w)); }
static vector<variable> vars(int n) { vector<variable> v; for (int i = 0; i < n; ++i) v.push_back(X[i]); return v; }
static int64_t tdeg(const RP& p) { int64_t d = -1; for (auto& t : p.t) { int64_t s = 0; for (auto e : t.first) s += e; d = max(d, s); } return d; }
static set<Mon> supp(const RP& p) { set<Mon> s; for (auto& t : p.t) s.insert(t.first); return s; }
struct CR { int a, b; };
template <class Tc> static void sparse_poly(int n, uint64_t deg, uint64_t len, CR cr, bool add, int den = 0) {
    int lo = min(cr.a, cr.b), hi = max(cr.a, cr.b); ostringstream o; o << "random_polynomial(" << n << " variables, degree " << deg << ", " << len << " terms, coefficients " << cr.a << ".." << cr.b << (add ? ", with constant" : "") << (den ? ", denominators up to " + to_string(den) : "") << ")"; string w = o.str(); uint64_t total = binom(deg + n, n), L = min(len, total); set<set<Mon>> got; set<RQ> cs;
    auto f = [&](const RP& p) { size_t want = L; if (add && L) { bool c = p.t.count(Mon(n, 0)); CHECK(c, w << " has no constant term: " << p); } size_t k = p.t.size(); CHECK(k == want || (add && want && k == want + 1), w << " has " << k << " terms: " << p); if (want) CHECK(tdeg(p) == (int64_t)deg, w << " has degree " << tdeg(p) << ": " << p); for (auto& t : p.t) { RQ c = t.second; if (!den) CHECK(c.get_den() == 1 && c >= lo && c <= hi, w << " has coefficient " << c.get_str()); else CHECK(c.get_den() <= den && c >= min(0, lo) && c <= max(0, hi), w << " has coefficient " << c.get_str()); cs.insert(c); } got.insert(supp(p)); };
    bool full = outcomes([&] { if constexpr (is_same_v<Tc, QQ>) { if (den) f(from(random_polynomial_QQ(vars(n), deg, len, {cr.a, cr.b}, den, add), n, w.c_str())); else f(from(random_polynomial<QQ>(vars(n), deg, len, {cr.a, cr.b}, add), n, w.c_str())); } else f(from(random_polynomial<Tc>(vars(n), deg, len, {cr.a, cr.b}, add), n, w.c_str())); });
    if (full && L) { vector<Mon> ms; { Mon m(n, 0); function<void(int, int64_t)> rec = [&](int i, int64_t d) { if (i == n) { ms.push_back(m); return; } for (int64_t e = 0; e <= d; ++e) { m[i] = e; rec(i + 1, d - e); } m[i] = 0; }; rec(0, deg); } set<set<Mon>> want; vector<int> pick(ms.size(), 0); fill(pick.begin(), pick.begin() + L, 1); do { set<Mon> s; bool top = false; for (size_t i = 0; i < ms.size(); ++i) if (pick[i]) { s.insert(ms[i]); int64_t d = 0; for (auto e : ms[i]) d += e; top |= d == (int64_t)deg; } if (!top) continue; if (add) s.insert(Mon(n, 0)); want.insert(s); } while (prev_permutation(pick.begin(), pick.end())); CHECK(got == want, w << " can only have " << got.size() << " of the " << want.size() << " admissible supports"); if (!den) for (int c = lo; c <= hi; ++c) if (c) CHECK(cs.count(RQ(c)), w << " never has the coefficient " << c); vh::aux(1); }
    for (auto& s : got) { uint64_t h = vh::hstr(w); for (auto& m : s) for (auto e : m) h = vh::mix(h + e + 1); vh::outcome(h); } vh::state(vh::hstr(w)); }
template <class Tc> static void dense_poly(int n, uint64_t deg, double p, int up, int down) {
    ostringstream o; o << "random_polynomial(" << n << " variables, degree " << deg << ", density " << p << ", coefficients " << up << ", " << down << ")"; string w = o.str(); int lo = min(up, down), hi = max(up, down); uint64_t total = binom(deg + n, n); set<set<Mon>> got;
    bool full = outcomes([&] { RP r = from(random_polynomial<Tc>(vars(n), deg, p, up, down), n, w.c_str()); CHECK(tdeg(r) <= (int64_t)deg, w << " has degree " << tdeg(r)); for (auto& t : r.t) CHECK(t.second.get_den() == 1 && t.second >= lo && t.second <= hi, w << " has coefficient " << t.second.get_str()); if (p <= 0) CHECK(r.zero(), w << " is not zero"); if (p >= 1 && (lo > 0 || hi < 0)) CHECK(r.t.size() == total, w << " has " << r.t.size() << " of all " << total << " terms"); got.insert(supp(r)); });
    if (full && p > 0 && p < 1 && (lo != 0 || hi != 0)) { CHECK(got.size() == (1ull << total), w << " can only have " << got.size() << " of the " << (1ull << total) << " supports"); vh::aux(1); } for (auto& s : got) { uint64_t h = vh::hstr(w); for (auto& m : s) for (auto e : m) h = vh::mix(h + e + 1); vh::outcome(h); } vh::state(vh::hstr(w)); }
template <class Tc> static void uni(uint64_t deg, uint64_t len, CR cr) { ostringstream o; o << "random_upolynomial(" << deg << ", " << len << ", " << cr.a << ".." << cr.b << ")"; string w = o.str(); int lo = min(cr.a, cr.b), hi = max(cr.a, cr.b); set<set<Mon>> got; uint64_t L = min(len, deg + 1); bool full = outcomes([&] { RP r = from(random_upolynomial<Tc>(deg, len, {cr.a, cr.b}), w.c_str()); CHECK(r.t.size() == L, w << " has " << r.t.size() << " terms"); if (L) CHECK(tdeg(r) == (int64_t)deg, w << " has degree " << tdeg(r)); for (auto& t : r.t) CHECK(t.second.get_den() == 1 && t.second >= lo && t.second <= hi, w << " coefficient " << t.second.get_str()); got.insert(supp(r)); }); if (full && L) { CHECK(got.size() == binom(deg, L - 1), w << " can only have " << got.size() << " of the " << binom(deg, L - 1) << " supports"); vh::aux(1); } for (auto& s : got) { uint64_t h = vh::hstr(w); for (auto& m : s) for (auto e : m) h = vh::mix(h + e + 1); vh::outcome(h); } vh::state(vh::hstr(w)); }
static string nm(int i) { return "a_long_enough_name_" + to_string(i); }
template <class N> static void rgraph(const vector<N>& nodes, double p) { size_t n = nodes.size(); ostringstream o; o << "random_graph(" << ls(nodes) << ", " << p << ")"; string w = o.str(); set<vector<bool>> got; bool full = outcomes([&] { auto G = random_graph<N>(nodes, p); CHECK(G.size() == n && G.mnode().size() == n, w << " has " << G.size() << " nodes"); vector<bool> e; for (size_t i = 0; i < n; ++i) { CHECK(G.mnode().count(nodes[i]), w << ": node missing"); CHECK(!G.is_edge(nodes[i], nodes[i]), w << ": loop"); for (size_t j = i + 1; j < n; ++j) { bool b = G.is_edge(nodes[i], nodes[j]); CHECK(b == G.is_edge(nodes[j], nodes[i]), w << ": not symmetric"); if (p <= 0) CHECK(!b, w << ": edge"); if (p >= 1) CHECK(b, w << ": missing edge"); e.push_back(b); } } got.insert(e); }); if (full && p > 0 && p < 1) { CHECK(got.size() == (1ull << (n * (n - 1) / 2)), w << " can only return " << got.size() << " graphs"); vh::aux(1); } for (auto& e : got) vh::outcome(w + ls(vector<int>(e.begin(), e.end()))); vh::state(vh::hstr(w)); }
static void system_(int n, uint64_t deg, double p1, double p2, int up, int down) { ostringstream o; o << "random_polynomials(" << n << " variables, degree " << deg << ", " << p1 << ", " << p2 << ", " << up << ", " << down << ")"; string w = o.str(); int lo = min(up, down), hi = max(up, down); set<string> got; outcomes([&] { auto L = random_polynomials<ZZ>(vars(n), deg, p1, p2, up, down); CHECK(L.size() <= (size_t)n, w << " returned " << L.size() << " polynomials"); if (p1 <= 0) CHECK(L.empty(), w << " is not empty"); string s; for (auto& q : L) { RP r = from(q, n, w.c_str()); CHECK(tdeg(r) <= (int64_t)deg, w << " has degree " << tdeg(r)); for (auto& t : r.t) CHECK(t.second >= lo && t.second <= hi, w << " has coefficient " << t.second.get_str()); s += r.str() + ";"; } if (p1 >= 1 && p2 >= 1 && n > 1 && (lo > 0 || hi < 0)) { CHECK(L.size() == (size_t)n, w << " returned " << L.size() << " polynomials"); for (auto& q : L) CHECK(q.size() == binom(n + deg, n), w << " has " << q.size() << " terms"); } got.insert(s); }); for (auto& s : got) vh::outcome(w + s); vh::state(vh::hstr(w)); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(4); bool T = vh::thorough; if (T) LIMIT = 12000; vh::aux_names[0] = "draw sequences"; vh::aux_names[1] = "parameter sets with every outcome run";
        vector<CR> C{{1, 1}, {-1, 1}, {2, 1}, {0, 2}, {-3, -2}, {-2, 0}, {5, -5}};
        int M = T ? 9 : 7; vh::scope("select", M * (M + 2) * 2, [=](uint64_t i) { size_t m = i / 2 / (M + 2), n = i / 2 % (M + 2); bool nr = i % 2; if (m == 0 && !nr) return; selection(m, n, nr); });
        { vector<size_t> big{1000, 65537, 2147483647ull, 2147483648ull, 2147483649ull, 4294967295ull, 4294967296ull, 4294967299ull, 10272278170ull, 1ull << 40}; vh::scope("select.large", big.size() * 4 * 2, [=](uint64_t i) { size_t m = big[i / 8], n = i / 2 % 4 + 1; selection(m, n, i % 2); }); }
        vh::scope("sample", 8 * 9, [=](uint64_t i) { size_t k = i / 9, n = i % 9; vector<int> l; vector<string> s; vector<int> rep; for (size_t j = 0; j < k; ++j) { l.push_back(j * 7 % 8); s.push_back(nm(j)); rep.push_back(j % 3); } if (k > 6 && !T) return; sample(l, n); if (k < 6) { sample(s, n); sample(rep, n); } });
        // sparse polynomials
        struct P { int n; uint64_t d, l; int c; bool add; }; vector<P> A; for (int n = 1; n <= 3; ++n) for (uint64_t d = 0; d <= (n == 1 ? 5u : n == 2 ? 3u : 2u); ++d) for (uint64_t l = 0; l <= binom(n + d, n) + 1; ++l) for (int c = 0; c < (int)C.size(); ++c) for (int add = 0; add < 2; ++add) A.push_back({n, d, l, c, add == 1}); auto pa = make_shared<vector<P>>(A);
        vh::scope("sparse", A.size(), [=](uint64_t i) { auto& p = (*pa)[i]; sparse_poly<ZZ>(p.n, p.d, p.l, C[p.c], p.add); }); vh::scope("sparse.qq", A.size(), [=](uint64_t i) { auto& p = (*pa)[i]; if (T || i % 3 == 0) sparse_poly<QQ>(p.n, p.d, p.l, C[p.c], p.add); if (p.l < 4) sparse_poly<QQ>(p.n, p.d, p.l, C[p.c], p.add, 1 + i % 3); });
        { vector<P> B; for (int n = 1; n <= 4; ++n) for (uint64_t d : {4, 7, 12, 30, 100, 1000}) for (uint64_t l : {1, 2, 3, 5, 9}) for (int c : {0, 1, 6}) B.push_back({n, d, l, c, d % 2 == 0}); auto pb = make_shared<vector<P>>(B); vh::scope("sparse.large", B.size(), [=](uint64_t i) { auto& p = (*pb)[i]; sparse_poly<ZZ>(p.n, p.d, p.l, C[p.c], p.add); }); }
        vh::scope("density", 3 * 5 * 4 * 6, [=](uint64_t i) { int n = i % 3 + 1; uint64_t d = i / 3 % 5; double p = vector<double>{0, 0.3, 0.9, 1}[i / 15 % 4]; int u = vector<int>{1, 3, -1, 2, 0, -2}[i / 60], l = vector<int>{1, -1, 2, 0, 0, -1}[i / 60]; dense_poly<ZZ>(n, d, p, u, l); if (n < 3) dense_poly<QQ>(n, d, p, u, l); });
        vh::scope("univariate", 8 * 10 * 7, [=](uint64_t i) { uni<ZZ>(i % 8, i / 8 % 10, C[i / 80]); uni<ZZ>(i % 8 * 97, i / 8 % 10, C[i / 80]); });
        vh::scope("graph", 6 * 4, [=](uint64_t i) { int n = i % 6; double p = vector<double>{0, 0.2, 0.7, 1}[i / 6]; vector<int> I; vector<string> S; for (int k = 0; k < n; ++k) { I.push_back((k * 5 + 2) % 7); S.push_back(nm(n - k)); } rgraph(I, p); rgraph(S, p); if (n <= 4) rgraph(vars(n), p); });
        vh::scope("systems", 4 * 3 * 9 * 4, [=](uint64_t i) { int n = i % 4 + 1; uint64_t d = i / 4 % 3; double q[] = {0, 0.5, 1}; system_(n, d, q[i / 12 % 3], q[i / 36 % 3], vector<int>{1, 2, 3, -1}[i / 108], vector<int>{1, -1, 0, -2}[i / 108]); });
    });
}
