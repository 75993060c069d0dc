// C15: factorisation of multivariate integer polynomials.
#include "zfactor.hh"
using namespace rp; using namespace std; typedef vector<pair<RP, uint64_t>> Fac;
static string show(const Fac& f) { string s; for (auto& x : f) s += "[" + x.first.str() + "]^" + to_string(x.second) + " "; return s; }
static RP pos(const RP& a) { return a.t.rbegin()->second < 0 ? -a : a; }
// content * factors == input; factors primitive (sign free), pairwise not associate, irreducible (or the known ones)
static void judge(const RP& a, const RP& c, Fac F, const Fac* known, int n) {
    vh::step(); if (a.zero()) { CHECK(c.zero() && F.empty(), "factorisation of 0: " << c << " " << show(F)); return; }
    CHECK(c.is_const() && zintegral(c) && !c.zero(), "content " << c); RP p = c;
    for (size_t i = 0; i < F.size(); ++i) { auto& f = F[i]; CHECK(!f.first.is_const() && f.second >= 1, "constant factor or zero multiplicity in " << show(F)); CHECK(zintegral(f.first) && f.first.icont() == 1, "factor " << f.first << " of " << a << " is not primitive"); p = p * rpow(f.first, f.second, n); }
    CHECK(p == a, c << " * " << show(F) << " is not " << a); for (auto& f : F) f.first = pos(f.first); sort(F.begin(), F.end()); for (size_t i = 1; i < F.size(); ++i) CHECK(F[i].first != F[i - 1].first, "associate factors in " << show(F));
    if (known) { Fac G = *known; for (auto& g : G) g.first = pos(g.first); sort(G.begin(), G.end()); CHECK(F == G, "factorisation of " << a << " is " << show(F) << ", expected " << show(G)); } else for (auto& f : F) CHECK(zf::irr(f.first, n), "factor " << f.first << " of " << a << " is reducible");
    vh::outcome(show(F));
}
template <class comp> static void one(const RP& a, const Fac* known, const comp* c, int n) { auto f = lib<ZZ, comp>(a, c); auto r = factorize(f); Fac F; for (auto& x : r.factors) F.push_back({from(x.first, n, "factor"), x.second}); judge(a, RP::c(RQ(zref(r.content)), n), F, known, n); CHECK(from(f, n) == a, "operand changed"); }
static RP prod(const Fac& f, const RQ& c, int n) { RP a = RP::c(c, n); for (auto& x : f) a = a * rpow(x.first, x.second, n); return a; }
template <class comp> static void all(const string& name, const comp* c, int n, vector<RP> A) { auto pa = make_shared<vector<RP>>(uniq(A)); vh::scope(name, pa->size(), [=](uint64_t i) { MOD = 0; vrand::reset(0); one((*pa)[i], nullptr, c, n); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return (*pa)[i].str(); }); }
static vector<Fac> multisets(const vector<RP>& I, int size, uint64_t maxe) { vector<Fac> out; function<void(size_t, Fac, int)> rec = [&](size_t i, Fac f, int s) { if (i == I.size()) { if (!f.empty()) out.push_back(f); return; } rec(i + 1, f, s); for (uint64_t e = 1; e <= maxe && (int)e <= s; ++e) { Fac g = f; g.push_back({I[i], e}); rec(i + 1, g, s - e); } }; rec(0, {}, size); return out; }
static void want_irr(const vector<RP>& I, int n) { for (auto& f : I) if (!zf::irr(f, n)) { fprintf(stderr, "catalogue entry %s is reducible\n", f.str().c_str()); abort(); } }
static vector<RP> irrs(vector<RP> A, int n) { vector<RP> o; for (auto& a : A) if (!a.is_const() && a.icont() == 1 && zf::irr(a, n)) { RP p = pos(a); if (find(o.begin(), o.end(), p) == o.end()) o.push_back(p); } return o; }
static vector<RP> thin(const vector<RP>& A, size_t n) { if (A.size() <= n) return A; vector<RP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
template <class comp> static void known(const string& name, const comp* c, int n, vector<RP> I, int size, uint64_t maxe, vector<RQ> cs, size_t stride = 1) { want_irr(I, n); auto S = make_shared<vector<Fac>>(multisets(I, size, maxe)); uint64_t k = cs.size(); vh::scope(name, (S->size() + stride - 1) / stride, [=](uint64_t q) { MOD = 0; uint64_t i = q * stride; const Fac& f = (*S)[i]; vrand::reset(0); one(prod(f, cs[i % k], n), &f, c, n); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t q) { return show((*S)[q * stride]) + "* " + cs[q * stride % k].get_str(); }); }
static void draws(const string& name, int n, vector<Fac> S0, int depth, uint64_t hor) { auto S = make_shared<vector<Fac>>(S0); static const vector<unsigned char> menu{1, 2, 3, 5, 16 + 2}; vh::scope(name, S->size(), [=](uint64_t i) { MOD = 0; const Fac& f = (*S)[i]; RP a = prod(f, RQ(1), n); uint64_t r = vrand::deviations(i % 5, depth, hor, menu, [&] { one<lex>(a, &f, &lex::init, n); }); vh::aux(0, r); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i]) + " all draws"; }); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(4); const bool T = true, U = vh::thorough; vh::aux_names[0] = "draw_sequences";
        static lex_<custom_var_order> lc(custom_var_order({rp::X[2], rp::X[0]})); static univariate_priority_order up(rp::X[1]);
        { // two variables
            RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); auto sm = sparse(monos_box({2, 2}), {RQ(1), RQ(-1), RQ(2), RQ(-3)}, 2);
            all("2v.all.deg2", &lex::init, 2, dense(monos_deg(2, 2), U ? ints(-3, 3) : ints(-2, 2))); all("2v.sparse3", &lex::init, 2, sparse(monos_box({3, 3}), {RQ(1), RQ(-1), RQ(4)}, U ? 5 : 4));
            all("2v.grlex.deg2", &grlex::init, 2, dense(monos_deg(2, 2), {RQ(0), RQ(1), RQ(-2)})); all("2v.up", &up, 2, dense(monos_deg(2, 2), {RQ(0), RQ(1), RQ(-1)}));
            auto I = irrs(sm, 2); known("2v.pairs", &lex::init, 2, thin(I, U ? 260 : 90), 2, 2, {RQ(1), RQ(-6)}); known("2v.triples", &lex::init, 2, thin(I, U ? 70 : 40), 3, 2, {RQ(1), RQ(-2)});
            auto D = irrs(dense(monos_deg(2, 2), ints(-1, 1)), 2); known("2v.dense.pairs", &lex::init, 2, thin(D, U ? 500 : 200), 2, 2, {RQ(1), RQ(3)});
            vector<RP> L{x, y, x + y, x - y, x * RQ(2) + y * RQ(3) - o, y + o, y - o * RQ(2), x * y - o, x * y * y + o, (y * y - o) * x + o, (y * y + y) * x * x - o * RQ(2), x * x + y * y, x * x - y * RQ(2), x * x * x + y * x + o, y * y * RQ(6) * x + y * RQ(5) + o}; known("2v.lc", &lex::init, 2, L, T ? 4 : 3, 3, {RQ(1), RQ(-1), RQ(12)}); known("2v.lc.grlex", &grlex::init, 2, L, 2, 2, {RQ(1)}); known("2v.lc.up", &up, 2, L, 2, 2, {RQ(1)}); 
            RZ P("1000000000000000000000000000057"), W("9223372036854775783"); RQ p(P), w(W); known("2v.large", &lex::init, 2, {x - y * p, x * p + y * w, x * x - y * p, x * y * w - o, x + y + o * w, x * x * p + y * y + o}, 3, 2, {RQ(1), RQ(-P)});
            RZ Q = 1; for (int i = 0; i < 120; ++i) Q *= 10; Q += 7; RQ q(Q); known("2v.huge", &lex::init, 2, {x * x + y * q - o, x * x * (y * q - o) + o * q, x + y + o * q * RQ(3), x * y * q - o, x * x - y * q * RQ(5) + o, x * q + y}, 2, 2, {RQ(1), RQ(-Q)});
            // leading coefficients divisible by the largest word-sized primes
            { RZ p1("18446744073709551557"), p2("18446744073709551533"), p3("18446744073709551521"); vector<RP> Q; for (RZ m : {p1, p2, RZ(p1 * p2), RZ(p1 * p2 * p3)}) { RQ q(m); Q.push_back(x * y * q + o); Q.push_back(x * q + y); Q.push_back(x * x * q + y * q + o); } Q.push_back(x + y + o); Q.push_back(x * y + y + o * RQ(2)); known("2v.lc.primes", &lex::init, 2, Q, 2, 2, {RQ(1)}); }
            // leading coefficients with a fixed divisor: never pairwise coprime at integer points
            vector<RP> FD{y * y + y + o * RQ(2), y * y + y + o * RQ(4), y * (y + o), y * y * y - y + o * RQ(6), y * y - y + o * RQ(6)}, FX; for (auto& d : FD) { FX.push_back(x * x * d + o); FX.push_back(x * d + o); FX.push_back(x * x * d + x + y); } known("2v.fixed.divisor", &lex::init, 2, irrs(FX, 2), T ? 3 : 2, 2, {RQ(1), RQ(6)});
            // modular splitting: polynomials with irreducible bivariate shape and many univariate factors
            vector<RP> H; for (int k : {2, 4}) { RP xk = rpow(x, k, 2), yk = rpow(y, k, 2); for (auto& f : {xk + yk, xk - yk * RQ(2), xk + y, xk - y * y * y, xk + o * RQ(1) , xk * yk + o, xk * xk + yk * xk * RQ(-10) + yk * yk}) H.push_back(f); } auto HI = irrs(H, 2); known("2v.hard", &lex::init, 2, HI, T ? 3 : 2, 2, {RQ(1)});
            vector<RP> B; for (int a = 1; a <= 6; ++a) for (int b = 1; b <= 6; ++b) for (long c : {1l, -1l, 4l, -4l}) { B.push_back(rpow(x, a, 2) + rpow(y, b, 2) * RQ(c)); B.push_back(rpow(x, a, 2) * rpow(y, b, 2) + o * RQ(c)); } all("2v.binomials", &lex::init, 2, B);
        }
        { // three variables
            RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); all("3v.sparse", &lex::init, 3, sparse(monos_box({2, 1, 1}), {RQ(1), RQ(-1), RQ(2)}, U ? 5 : 4)); all("3v.quadrics", &lex::init, 3, sparse(monos_deg(3, 2), {RQ(1), RQ(-1)}, U ? 6 : 5));
            auto I = irrs(sparse(monos_box({2, 1, 2}), {RQ(1), RQ(-2)}, 2), 3), J = irrs(sparse(monos_deg(3, 2), {RQ(1), RQ(-1)}, 3), 3); known("3v.pairs", &lex::init, 3, thin(I, U ? 200 : 80), 2, 2, {RQ(1), RQ(-6)}); known("3v.triples", &lex::init, 3, thin(J, U ? 64 : 32), 3, 2, {RQ(1)}); known("3v.quad.pairs", &lex::init, 3, thin(J, U ? 400 : 120), 2, 1, {RQ(1)});
            vector<RP> L{x, y, z, x + y + z, x * y - z, y + z, y * z - o, x * (y + z) + o, x * (y - z) - o * RQ(2), x * x * (y + o) + z, x * x + y * z, x * y * z + x + o, (y * y - z) * x + y, x * x - y * y * z, y * RQ(2) - z * RQ(3), (y + z) * (y - z) * x * x + x + o, x * (y + o) * (z + o) - o}; known("3v.lc", &lex::init, 3, L, T ? 3 : 2, 3, {RQ(1), RQ(-4)}); { vector<RP> M; for (size_t i = 3; i < L.size(); i += T ? 1 : 2) M.push_back(L[i]); known("3v.lc.triples", &lex::init, 3, M, 3, 1, {RQ(1)}); } known("3v.lc.grlex", &grlex::init, 3, L, 2, 1, {RQ(1)}); known("3v.lc.up", &up, 3, L, 2, 1, {RQ(1)}); known("3v.lc.custom", &lc, 3, L, 2, 1, {RQ(1), RQ(-1)});
            vector<Fac> S; for (auto& f : multisets({x + y + z, x * (y + z) + o, x * (y - z) - o * RQ(2), x * x + y * z, x * x * (y + o) + z, y * z - o}, 3, 2)) S.push_back(f); draws("3v.draws", 3, S, 2, U ? 24 : 12);
        }
        { // four variables
            RP x = RP::x(0, 4), y = RP::x(1, 4), z = RP::x(2, 4), t = RP::x(3, 4), o = RP::c(1, 4); all("4v.sparse", &lex::init, 4, sparse(monos_box({1, 1, 1, 1}), {RQ(1), RQ(-3)}, U ? 4 : 3));
            vector<RP> L{x + y + z + t, x * y - z * t, x * (y + t) + z, x * x + y * z + t, x * (y - z) + t * RQ(2) - o, y * t + z, x * y * z * t - o, x * x * (z + t) - y, z - t, x * x - y * t * t + o, x * (y + o) * (z - t) + o, t}; known("4v.pairs", &lex::init, 4, L, U ? 3 : 2, 2, {RQ(1), RQ(6)}); known("4v.triples", &lex::init, 4, T ? L : vector<RP>(L.begin(), L.begin() + 7), 3, 1, {RQ(1)}); vector<Fac> S = multisets({x + y + z + t, x * (y + t) + z, x * (y - z) + t * RQ(2) - o, x * x + y * z + t}, 2, 1); draws("4v.draws", 4, S, 2, U ? 20 : 10);
        }
    });
}
