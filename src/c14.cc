// C14: factorisation of univariate integer polynomials.
#include "zfactor.hh"
using namespace rp; using namespace std; typedef vector<pair<RP, uint64_t>> Fac;
static string show(const Fac& f) { string s; for (auto& x : f) s += "[" + x.first.str() + "]^" + to_string(x.second) + " "; return s; }
static void judge(const char* api, const RP& a, const RP& c, Fac F, const Fac* known) {
    vh::step(); if (a.zero()) { CHECK(c.zero() && F.empty(), api << ": factorisation of 0: " << c << " " << show(F)); return; }
    RP p = c; CHECK(c.is_const() && zintegral(c) && !c.zero(), api << ": content " << c); for (size_t i = 0; i < F.size(); ++i) { auto& f = F[i]; CHECK(!f.first.is_const() && f.second >= 1, api << ": constant factor or zero multiplicity in " << show(F)); CHECK(zintegral(f.first) && f.first.icont() == 1 && f.first.lc(0).cst() > 0, api << ": factor " << f.first << " of " << a << " is not primitive with positive leading coefficient"); p = p * rpow(f.first, f.second, 1); for (size_t j = 0; j < i; ++j) CHECK(F[j].first != f.first, api << ": factor repeated in " << show(F)); }
    CHECK(p == a, api << ": " << c << " * " << show(F) << " is not " << a); sort(F.begin(), F.end()); if (known) { Fac G = *known; sort(G.begin(), G.end()); CHECK(F == G, api << ": factorisation of " << a << " is " << show(F) << ", expected " << show(G)); } else for (auto& f : F) CHECK(zf::irr(f.first, 1), api << ": factor " << f.first << " of " << a << " is reducible");
    vh::outcome(show(F));
}
static void up(const RP& a, const Fac* known) { auto f = ulib<ZZ>(a); auto r = factorize(f); Fac F; for (auto& x : r.factors) F.push_back({from(x.first, "factor"), x.second}); judge("factorize(upolynomial)", a, RP::c(RQ(zref(r.content)), 1), F, known); CHECK(from(f, "operand") == a, "operand changed"); }
template <class comp> static void mp(const RP& a, const Fac* known, const comp* c) { auto f = lib<ZZ, comp>(a, c); auto r = factorize(f); Fac F; for (auto& x : r.factors) F.push_back({from(x.first, 1, "factor"), x.second}); judge("factorize(polynomial)", a, RP::c(RQ(zref(r.content)), 1), F, known); CHECK(from(f, 1) == a, "operand changed"); }
static void both(const RP& a, const Fac* known, uint64_t k) { vrand::reset(k % 7 == 3 ? k : 0); up(a, known); vrand::reset(0); if (k % 2) mp<lex>(a, known, &lex::init); else mp<grlex>(a, known, &grlex::init); }
static void all(const string& name, vector<RP> A) { auto pa = make_shared<vector<RP>>(uniq(A)); vh::scope(name, pa->size(), [=](uint64_t i) { MOD = 0; both((*pa)[i], nullptr, i); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return (*pa)[i].str(); }); }
static RP prod(const Fac& f, const RQ& c) { RP a = RP::c(c, 1); for (auto& x : f) a = a * rpow(x.first, x.second, 1); return a; }
// every multiset of catalogue factors within a degree and size bound
static vector<Fac> multisets(const vector<RP>& I, int size, int deg, uint64_t maxe) { vector<Fac> out; function<void(size_t, Fac, int, int)> rec = [&](size_t i, Fac f, int s, int d) { if (i == I.size()) { if (!f.empty()) out.push_back(f); return; } rec(i + 1, f, s, d); for (uint64_t e = 1; e <= maxe && (int)e <= s && (int)e * I[i].deg(0) <= d; ++e) { Fac g = f; g.push_back({I[i], e}); rec(i + 1, g, s - e, d - e * I[i].deg(0)); } }; rec(0, {}, size, deg); return out; }
static void known(const string& name, vector<RP> I, int size, int deg, uint64_t maxe, vector<RQ> cs) { for (auto& f : I) if (!zf::irr(f, 1)) { fprintf(stderr, "catalogue entry %s is reducible\n", f.str().c_str()); abort(); } auto S = make_shared<vector<Fac>>(multisets(I, size, deg, maxe)); uint64_t k = cs.size(); vh::scope(name, S->size(), [=](uint64_t i) { MOD = 0; const Fac& f = (*S)[i]; RQ c = cs[i % k]; both(prod(f, c), &f, i); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i]); }); }
static void draws(const string& name, vector<Fac> S0, int depth, uint64_t hor) { auto S = make_shared<vector<Fac>>(S0); static const vector<unsigned char> menu{1, 2, 3, 4, 5}; vh::scope(name, S->size(), [=](uint64_t i) { MOD = 0; const Fac& f = (*S)[i]; RP a = prod(f, RQ(1)); uint64_t r = vrand::deviations(i % 5, depth, hor, menu, [&] { up(a, &f); }); vh::aux(0, r); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i]); }); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(1); bool T = vh::thorough; vh::aux_names[0] = "draw_sequences"; RP x = RP::x(0, 1), o = RP::c(1, 1);
        auto X = [&](int e) { return RP::x(0, 1, e); }; auto pc = [&](vector<long> c) { RP r; for (size_t i = 0; i < c.size(); ++i) r = r + X(c.size() - 1 - i) * RQ(c[i]); return r; };
        // every small polynomial
        all("all.deg3", dense(monos_box({3}), T ? ints(-6, 6) : ints(-4, 4))); all("all.deg4", dense(monos_box({4}), T ? ints(-4, 4) : ints(-3, 3))); all("all.deg5", dense(monos_box({5}), T ? ints(-2, 2) : ints(-1, 1))); all("all.deg6", dense(monos_box({6}), ints(-1, 1))); all("all.deg8", dense(monos_box({T ? 9 : 8}), T ? ints(-1, 1) : vector<RQ>{RQ(0), RQ(1)})); if (T) all("all.deg8.signed", dense(monos_box({8}), ints(-1, 1))); all("all.deg12", sparse(monos_box({T ? 20 : 14}), {RQ(1), RQ(-1), RQ(4)}, 3)); if (T) all("all.0-1.deg12", dense(monos_box({12}), {RQ(0), RQ(1)}));
        all("all.lc", dense(monos_box({3}), {RQ(0), RQ(6), RQ(-10), RQ(15), RQ(1)})); all("all.big", dense(monos_box({2}), {RQ(0), RQ(RZ("9223372036854775807")), RQ(RZ("-18446744073709551616")), RQ(1), RQ(-4), RQ(RZ("1000000000000000000000000000057"))}));
        // factors that split modulo every prime
        vector<RP> hard{pc({1, 0, 0, 0, 1}), pc({1, 0, -10, 0, 1}), pc({1, 0, -1, 0, 1}), pc({1, 0, 1}), pc({1, 0, -2}), pc({1, 0, -3}), pc({1, 0, -40, 0, 352, 0, -960, 0, 576}), pc({1, 0, 0, 0, 0, 0, 0, 0, 1}), pc({1, 0, -1, 0, 1, 0, -1, 0, 1}), pc({1, 0, 0, 0, -1, 0, 0, 0, 1}), pc({1, 0, -16, 0, 4}), pc({1, 0, 0, 0, 9}), pc({4, 0, 0, 0, 1}) * RQ(1) + X(2), pc({1, 2, 0, -2, 1}), pc({1, -1, 0, 1, -1, 1, 0, -1, 1})};
        vector<RP> hi; for (auto& h : hard) if (zf::irr(h, 1)) hi.push_back(h); known("hard.products", hi, 3, T ? 24 : 18, 2, {RQ(1), RQ(-6)}); { vector<RP> h4; for (auto& h : hi) if (h.deg(0) <= 4) h4.push_back(h); known("hard.many", h4, T ? 6 : 5, T ? 24 : 18, 1, {RQ(1), RQ(-2)}); vector<RP> sh; for (int s = -2; s <= 2; ++s) { RP y = x + o * RQ(s); sh.push_back(y * y * y * y + o); sh.push_back(rpow(y, 4, 1) - y * y * RQ(10) + o); } vector<RP> shi; for (auto& f : sh) if (zf::irr(f, 1)) shi.push_back(f); known("hard.shifts", shi, T ? 4 : 3, 16, 1, {RQ(1)}); }
        // linear and quadratic factors: many modular factors, multiplicities
        vector<RP> lin; for (int r = -3; r <= 3; ++r) lin.push_back(x - o * RQ(r)); lin.push_back(pc({2, 1})); lin.push_back(pc({3, -2})); lin.push_back(pc({6, 5})); known("linear", lin, T ? 10 : 7, 12, 1, {RQ(1), RQ(-12)}); known("mults", {x, x + o, pc({2, -1}), pc({1, 0, 1}), pc({1, 1, 1}), pc({2, 0, 0, -3})}, T ? 9 : 7, T ? 20 : 14, 4, {RQ(1), RQ(-8), RQ(9)});
        known("small.mixed", {x, x - o, pc({2, 3}), pc({1, 0, 1}), pc({1, 1, 1}), pc({3, 0, -5}), pc({1, 0, 0, -2}), pc({5, 1, 0, 7}), pc({1, 0, 0, 0, 1}), pc({1, 1, 1, 1, 1}), pc({2, 0, -4, 0, 0, 3})}, T ? 5 : 4, T ? 20 : 14, 2, {RQ(1), RQ(-1), RQ(30)});
        { vector<RP> I; for (auto& f : dense(monos_box({4}), {RQ(0), RQ(1), RQ(-1), RQ(3)})) if (f.deg(0) >= 2 && f.lc(0).cst() > 0 && f.icont() == 1 && f.has(0) && zf::irr(f, 1)) I.push_back(f); vector<RP> K; size_t n = T ? 130 : 45; for (size_t i = 0; i < n; ++i) K.push_back(I[i * I.size() / n]); known("triples.deg4", K, 3, 12, 1, {RQ(1), RQ(-1)}); }
        // large coefficients and leading coefficients (Eisenstein at a large prime and small perturbations)
        RZ P("1000000000000000000000000000057"), W("9223372036854775783"); RQ p(P), w(W); known("large", {x - o * p, x * p + o, x * x - o * p, x * x * p + x * p - o, x * x * x * w + x * w * RQ(2) + o, x * x + x * RQ(W * W) + o, x * w - o * p, X(4) + X(2) * p * RQ(2) + o * p, x * x * x - x * w + o * w}, 3, 9, 2, {RQ(1), RQ(-RZ(P * 7)), RQ(4)});
        // x^n - c: cyclotomic products with many modular factors
        { vector<RP> A; for (int n = 1; n <= (T ? 60 : 36); ++n) for (long c : {1l, -1l, 2l, 4l, -4l, 16l, -27l, 64l}) if (n <= 24 || c == 1 || c == -1) { A.push_back(X(n) + o * RQ(c)); if (n <= 12) { A.push_back(X(n) * RQ(4) + o * RQ(c)); A.push_back(X(n) * RQ(c) + o); A.push_back(X(2 * n) + X(n) * RQ(c) + o); } } all("binomials", A); }
        { vector<RP> B; for (auto& f : dense(monos_box({2}), ints(-2, 2))) if (f.deg(0) >= 1) B.push_back(f); vector<RP> A; for (auto& f : B) for (int k : {2, 3, 4, 6}) { RP g; for (auto& [m, q] : f.t) g.add({m[0] * k}, q); A.push_back(g); } all("powers.substituted", A); }
        // composition with quadratics and palindromes: common sources of modular splitting
        { vector<RP> A; for (auto& f : dense(monos_box({T ? 4 : 3}), ints(-1, 1))) for (long c = -3; c <= 3; ++c) { RP y = x * x + x * RQ(c % 2) + o * RQ(c), s; for (auto& [m, q] : f.t) s = s + rpow(y, m[0], 1) * q; if (!s.zero()) A.push_back(s); } all("compositions", A); }
        // every draw outcome
        draws("draws.hard", multisets({hi[0], hi[1], hi[2], pc({1, 0, 1}), x - o, pc({2, 1})}, 3, 12, 2), T ? 2 : 1, T ? 14 : 10); draws("draws.linear", multisets(lin, T ? 5 : 4, 6, 1), 1, 10);
    });
}
