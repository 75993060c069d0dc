// C20: Groebner bases, normal forms, S-polynomials and ideal membership against an independent Buchberger algorithm.
#include "gb.hh"
using namespace rp; using namespace std; using namespace gb;
static string show(const vector<RP>& L) { string s = "("; for (auto& a : L) s += a.str() + "; "; return s + ")"; }
static bool prop(const RP& a, const RP& b) { return prim(a) == prim(b); } // equal up to a nonzero rational factor
static bool scaled(const RP& a, const RP& b) { if (a.zero() || b.zero()) return a.zero() && b.zero(); if (a.t.size() != b.t.size()) return false; RQ k = a.t.begin()->second / b.t.begin()->second; return a == b * k; }
template <class Tc, class comp> struct Run {
    const comp* c; int n; Ord o; Run(const comp* c_, int n_) : c(c_), n(n_), o(ord_of(*c_)) {}
    vector<polynomial_<Tc, comp>> L(const vector<RP>& F) const { vector<polynomial_<Tc, comp>> r; for (auto& f : F) r.push_back(lib<Tc, comp>(f, c)); return r; }
    vector<G1> gb(const vector<polynomial_<Tc, comp>>& B, const string& w) const { vector<G1> R; for (auto& b : B) { RP p = from(b, n, "basis element"); CHECK(!p.zero(), w << ": zero in the basis"); G1 g = sorted(p, o); if constexpr (is_same_v<Tc, ZZ>) { CHECK(zintegral(p) && p.icont() == 1 && g[0].second > 0, w << ": " << p << " is not primitive with positive leading coefficient"); monic(g); } else CHECK(g[0].second == 1, w << ": " << p << " is not monic"); R.push_back(g); } sort(R.begin(), R.end()); return R; }
    string str(const vector<G1>& G) const { vector<RP> v; for (auto& g : G) v.push_back(plain(g)); return show(v); }
    bool same(const RP& lib_, const RP& want) const { if constexpr (is_same_v<Tc, ZZ>) return scaled(lib_, want); else return lib_ == want; }
    void system(const vector<RP>& F, const vector<RP>& probes) const {
        string w = "ideal " + show(F); auto A = L(F); vector<G1> S; for (auto& f : F) S.push_back(sorted(f, o)); uint64_t work = 0; auto want = refgb(S, o, work); auto B = groebner_basis(A); vh::step(); auto got = gb(B, w); CHECK(got == want, w << ": basis " << str(got) << " but the reduced basis is " << str(want));
        for (size_t i = 0; i < F.size(); ++i) CHECK(from(A[i], n) == F[i], "generator changed");
        vector<int> pm; for (size_t i = 0; i < F.size(); ++i) pm.push_back(i); while (next_permutation(pm.begin(), pm.end())) { vector<RP> P; for (int i : pm) P.push_back(F[i]); auto B2 = groebner_basis(L(P)); vh::step(); CHECK(gb(B2, w + " permuted") == want, w << ": basis depends on the order of the generators"); }
        Ideal<Tc, comp> I(A); CHECK(I.generators().size() == F.size(), "generators()"); if (F.size() % 2) CHECK(gb(I.groebner_basis(), w) == want, w << ": Ideal basis");
        for (auto& p : probes) { RP nfr = plain(nf(sorted(p, o), want, o)); auto f = lib<Tc, comp>(p, c); bool in = I.contains(f); vh::step(); CHECK(in == nfr.zero(), w << ": contains(" << p << ") gives " << in << ", normal form is " << nfr); RP r = from(I.reduce(f), n, "normal form"); CHECK(same(r, nfr), w << ": reduce(" << p << ") = " << r << ", normal form is " << nfr); RP r2 = from(normal_form(f, B), n, "normal form"); CHECK(same(r2, nfr), w << ": normal_form(" << p << ") = " << r2); }
        for (size_t i = 0; i < F.size(); ++i) { RP p = F[i]; for (size_t j = 0; j < F.size(); ++j) p = p + F[j] * probes[(i + j) % probes.size()]; CHECK(I.contains(lib<Tc, comp>(p, c)), w << ": combination " << p << " reported outside"); vh::step(); }
        CHECK(gb(I.groebner_basis(), w) == want, w << ": cached basis changed"); vh::outcome(str(want));
    }
    void spair(const RP& a, const RP& b) const { auto f = lib<Tc, comp>(a, c), g = lib<Tc, comp>(b, c); RP s = from(s_polynomial(f, g), n, "S-polynomial"), want = plain(spol(sorted(a, o), sorted(b, o), o)); vh::step(); CHECK(same(s, want), "s_polynomial(" << a << ", " << b << ") = " << s << ", should be " << want); CHECK(from(f, n) == a && from(g, n) == b, "operand changed"); }
    // normal form modulo an arbitrary list: irreducible, difference in the ideal
    void mod(const RP& a, const vector<RP>& D) const { RP r = from(normal_form(lib<Tc, comp>(a, c), L(D)), n, "normal form"); vh::step(); string w = "normal_form(" + a.str() + ", " + show(D) + ") = " + r.str(); vector<G1> S; for (auto& f : D) S.push_back(sorted(f, o)); for (auto& t : r.t) for (auto& g : S) CHECK(!div(t.first, g[0].first), w << " is still reducible");
        // division in the documented manner (first divisor in list order) has one outcome
        RP want = plain(nf(sorted(a, o), S, o)); CHECK(same(r, want), w << ", dividing by the list in order gives " << want); }
};
template <class Tc, class comp> static void systems(const string& name, const comp* c, int n, vector<vector<RP>> A, vector<RP> probes) { auto P = make_shared<vector<vector<RP>>>(A); vh::scope(name, P->size(), [=](uint64_t i) { MOD = 0; Run<Tc, comp>(c, n).system((*P)[i], probes); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*P)[i]); }); }
template <class Tc, class comp> static void divs(const string& name, const comp* c, int n, vector<RP> A, vector<RP> D) { auto pa = make_shared<vector<RP>>(A), pd = make_shared<vector<RP>>(D); uint64_t na = A.size(), nd = D.size(); vh::scope(name, nd * nd, [=](uint64_t i) { MOD = 0; Run<Tc, comp> R(c, n); auto &f = (*pd)[i / nd], &g = (*pd)[i % nd]; R.spair(f, g); for (uint64_t k = 0; k < na; ++k) { R.mod((*pa)[k], {f, g}); if (i % nd == 0) R.mod((*pa)[k], {f}); if (k == 0) R.mod((*pa)[i % na], {}); } vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show({(*pd)[i / nd], (*pd)[i % nd]}); }); }
static vector<RP> thin(const vector<RP>& A, size_t n) { if (A.size() <= n) return A; vector<RP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
static vector<vector<RP>> pairs(const vector<RP>& A) { vector<vector<RP>> v; for (size_t i = 0; i < A.size(); ++i) for (size_t j = i; j < A.size(); ++j) v.push_back({A[i], A[j]}); return v; }
static vector<vector<RP>> triples(const vector<RP>& A) { vector<vector<RP>> v; for (size_t i = 0; i < A.size(); ++i) for (size_t j = i; j < A.size(); ++j) for (size_t k = j; k < A.size(); ++k) v.push_back({A[i], A[j], A[k]}); return v; }
static vector<RP> nonzero(vector<RP> A) { vector<RP> o; for (auto& a : A) if (!a.zero()) o.push_back(a); return uniq(o); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(3); bool T = vh::thorough; static lex_<custom_var_order> lc(custom_var_order({rp::X[2], rp::X[0]})); static univariate_priority_order up(rp::X[1]); auto q = [](long a, long b) { RQ r(a, b); r.canonicalize(); return r; };
        { RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); vector<RP> pb{o, x, y, x * y, x * x * RQ(3) - y, y * y * y + x * RQ(2) - o, x * x * x * y};
          auto A = nonzero(sparse(monos_deg(2, 2), {RQ(1), RQ(-1), RQ(2)}, 2)), A3 = nonzero(sparse(monos_deg(2, 3), {RQ(1), RQ(-3)}, 3)); vector<vector<RP>> s1; for (auto& a : A3) s1.push_back({a});
          systems<QQ, lex>("2v.single.lex", &lex::init, 2, s1, pb); systems<ZZ, grlex>("2v.single.zz", &grlex::init, 2, s1, pb);
          systems<QQ, grlex>("2v.pairs.grlex", &grlex::init, 2, pairs(thin(A, T ? 1000 : 180)), pb); systems<QQ, lex>("2v.pairs.lex", &lex::init, 2, pairs(thin(A, T ? 1000 : 180)), pb); systems<ZZ, grlex>("2v.pairs.zz", &grlex::init, 2, pairs(thin(A, T ? 1000 : 180)), pb); systems<ZZ, lex>("2v.pairs.zz.lex", &lex::init, 2, pairs(thin(A, T ? 200 : 60)), pb); systems<QQ, univariate_priority_order>("2v.pairs.up", &up, 2, pairs(thin(A, 30)), pb);
          systems<QQ, grlex>("2v.cubic.pairs", &grlex::init, 2, pairs(thin(A3, T ? 480 : 160)), pb); systems<QQ, lex>("2v.cubic.pairs.lex", &lex::init, 2, pairs(thin(A3, T ? 360 : 120)), pb); systems<ZZ, grlex>("2v.cubic.pairs.zz", &grlex::init, 2, pairs(thin(A3, T ? 360 : 120)), pb);
          systems<QQ, grlex>("2v.triples", &grlex::init, 2, triples(thin(A, T ? 120 : 60)), pb); systems<QQ, lex>("2v.triples.lex", &lex::init, 2, triples(thin(A, T ? 80 : 40)), pb); systems<ZZ, grlex>("2v.triples.zz", &grlex::init, 2, triples(thin(A3, T ? 64 : 32)), pb);
          vector<RP> Z{RP(), o, o * RQ(-2), x, x, x * y - o, x * x - y, y * q(2, 1) - x * RQ(3)}; { auto t = triples(Z); for (auto& a : pairs(Z)) t.push_back(a); for (auto& a : Z) t.push_back({a}); t.push_back({}); t.push_back({RP(), RP(), RP(), x}); systems<QQ, grlex>("2v.degenerate", &grlex::init, 2, t, pb); systems<ZZ, lex>("2v.degenerate.zz", &lex::init, 2, t, pb); }
          vector<RP> Rr; for (auto& a : thin(A3, 40)) { RP b = a; int k = 0; for (auto& t : b.t) t.second *= q(++k, 2 * k + 1); Rr.push_back(b); } systems<QQ, grlex>("2v.rational", &grlex::init, 2, pairs(Rr), {o, x * q(1, 2), x * y * q(2, 7) - y});
          auto D = thin(A3, T ? 120 : 60), Pn = thin(nonzero(dense(monos_deg(2, 2), {RQ(0), RQ(1), RQ(-2)})), 30); Pn.push_back(RP()); divs<QQ, grlex>("2v.division", &grlex::init, 2, Pn, D); divs<QQ, lex>("2v.division.lex", &lex::init, 2, Pn, D); divs<ZZ, grlex>("2v.division.zz", &grlex::init, 2, Pn, D); }
        { RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); vector<RP> pb{o, x, y, z, x * y * z, x * x - y * z * RQ(2), z * z * z + y};
          auto A = nonzero(sparse(monos_deg(3, 2), {RQ(1), RQ(-2)}, 2)); systems<QQ, grlex>("3v.pairs", &grlex::init, 3, pairs(thin(A, T ? 420 : 140)), pb); systems<QQ, lex>("3v.pairs.lex", &lex::init, 3, pairs(thin(A, T ? 300 : 100)), pb); systems<QQ, lex_<custom_var_order>>("3v.pairs.custom", &lc, 3, pairs(thin(A, T ? 120 : 60)), pb); systems<ZZ, grlex>("3v.pairs.zz", &grlex::init, 3, pairs(thin(A, T ? 300 : 100)), pb);
          systems<QQ, grlex>("3v.triples", &grlex::init, 3, triples(thin(A, T ? 88 : 44)), pb); systems<QQ, lex>("3v.triples.lex", &lex::init, 3, triples(thin(A, T ? 60 : 30)), pb); systems<ZZ, grlex>("3v.triples.zz", &grlex::init, 3, triples(thin(A, T ? 60 : 30)), pb);
          vector<RP> B{x * y - z, x * z - y * y, y * z - x, x * x - y, z * z - x * y + o, x + y + z, x * y + y * z + x * z, x * y * z - o, x * x * y - z * z, y * y * z - x}; systems<QQ, grlex>("3v.binomial.triples", &grlex::init, 3, triples(B), pb); systems<QQ, lex>("3v.binomial.triples.lex", &lex::init, 3, triples(B), pb); { vector<vector<RP>> v; for (size_t a = 0; a < B.size(); ++a) for (size_t b = a; b < B.size(); ++b) for (size_t c = b; c < B.size(); ++c) for (size_t d = c; d < B.size(); d += 1) v.push_back({B[a], B[b], B[c], B[d]}); systems<QQ, grlex>("3v.binomial.quadruples", &grlex::init, 3, v, pb); }
          auto D = thin(A, T ? 120 : 60); divs<QQ, grlex>("3v.division", &grlex::init, 3, pb, D); divs<ZZ, lex>("3v.division.zz", &lex::init, 3, pb, D); }
        { make_vars(4); vector<RP> v; for (int i = 0; i < 4; ++i) v.push_back(RP::x(i, 4)); RP o = RP::c(1, 4); vector<RP> pb{o, v[0], v[3], v[1] * v[2] - v[0], v[0] * v[0] * v[3] + v[2]}; auto A = nonzero(sparse(monos_deg(4, 2), {RQ(1), RQ(-1)}, 2)); vector<RP> B{v[0] * v[3] - v[1] * v[2], v[0] * v[2] - v[1] * v[1], v[1] * v[3] - v[2] * v[2], v[0] + v[1] + v[2] + v[3], v[0] * v[1] + v[1] * v[2] + v[2] * v[3] + v[3] * v[0], v[0] * v[1] * v[2] - v[3], v[3] * v[3] - v[0] * RQ(2) + o, v[1] * v[1] * v[3] - v[0]};
          systems<QQ, grlex>("4v.pairs", &grlex::init, 4, pairs(thin(A, T ? 200 : 70)), pb); systems<QQ, grlex>("4v.triples", &grlex::init, 4, triples(thin(A, T ? 40 : 18)), pb); systems<ZZ, grlex>("4v.binomial", &grlex::init, 4, triples(B), pb); systems<QQ, lex>("4v.binomial.lex", &lex::init, 4, triples(T ? B : thin(B, 6)), pb); }
    });
}
