// C12: squarefree test, decomposition and basis.
#include "algebra.hh"
using namespace rp; using namespace std;
typedef pair<RP, uint64_t> PE;
bool coprime(const RP& a, const RP& b) { RP g = fgcd(a, b); return g.is_const(); }
string show(const vector<PE>& v) { string s; for (auto& x : v) s += "[" + x.first.str() + "]^" + to_string(x.second) + " "; return s; }
template <class comp> void dec(const RP& a, const comp* c, int n) {
    auto f = lib<ZZ, comp>(a, c); vrand::reset(0); auto L = squarefreefactorize(f); vh::step(); vector<PE> R; RP prod = RP::c(1, n);
    for (auto& l : L) R.push_back({from(l.first, n, "factor"), l.second});
    if (a.zero()) { CHECK(R.empty(), "decomposition of 0: " << show(R)); CHECK(!is_squarefree(f), "0 is squarefree"); return; }
    bool sf = true; for (auto& r : R) { CHECK(r.second >= 1 && !r.first.zero(), "bad entry in " << show(R)); prod = prod * rpow(r.first, r.second, n); if (!r.first.is_const()) { CHECK(sqfree(r.first), "factor " << r.first << " of " << a << " is not squarefree"); if (r.second > 1) sf = false; } }
    CHECK(prod == a, "product of " << show(R) << " is not " << a);
    for (size_t i = 0; i < R.size(); ++i) for (size_t j = i + 1; j < R.size(); ++j) if (!R[i].first.is_const() && !R[j].first.is_const()) CHECK(coprime(R[i].first, R[j].first), "factors " << R[i].first << " and " << R[j].first << " of " << a << " are not coprime");
    vrand::reset(0); CHECK(is_squarefree(f) == sqfree(a), "is_squarefree(" << a << ") is " << is_squarefree(f)); CHECK(from(f, n) == a, "operand changed"); vh::outcome(show(R));
}
template <class comp> void decs(const string& name, const comp* c, int n, vector<RP> A) { A = uniq(A); auto pa = make_shared<vector<RP>>(A); vh::scope(name, A.size(), [=](uint64_t q) { MOD = 0; dec<comp>((*pa)[q], c, n); vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q].str(); }); }
// squarefree basis of a list of polynomials
template <class comp> void bases(const string& name, const comp* c, int n, vector<RP> A, int len) {
    A = uniq(A); auto pa = make_shared<vector<RP>>(A); uint64_t k = A.size(), N = 0; for (int l = 1; l <= len; ++l) N += vh::ipow(k, l);
    auto list = [=](uint64_t q) { int l = 1; while (q >= vh::ipow(k, l)) { q -= vh::ipow(k, l); ++l; } vector<RP> r; for (int i = 0; i < l; ++i, q /= k) r.push_back((*pa)[q % k]); return r; };
    vh::scope(name, N, [=](uint64_t q) {
        MOD = 0; auto F = list(q); vector<polynomial_<ZZ, comp>> f; for (auto& a : F) f.push_back(lib<ZZ, comp>(a, c)); vrand::reset(0); auto [B, I] = squarefreebasis(f); vh::step(); vector<RP> b; string t; for (auto& x : B) { b.push_back(from(x, n, "basis element")); t += "[" + b.back().str() + "] "; }
        CHECK(B.size() == I.size(), "index list has " << I.size() << " entries for " << B.size() << " basis elements"); for (auto& x : b) { CHECK(!x.is_const(), "constant basis element in " << t); CHECK(sqfree(x), "basis element " << x << " is not squarefree"); }
        for (size_t i = 0; i < b.size(); ++i) for (size_t j = i + 1; j < b.size(); ++j) CHECK(coprime(b[i], b[j]), "basis elements " << b[i] << " and " << b[j] << " share a factor");
        // each input is, up to a constant, the product of the basis elements with the multiplicities recorded for it
        for (size_t i = 0; i < F.size(); ++i) if (!F[i].zero()) { RP p = RP::c(1, n); for (size_t j = 0; j < b.size(); ++j) for (auto& e : I[j]) { CHECK(e.first < F.size(), "index out of range"); if (e.first == i) p = p * rpow(b[j], e.second, n); } CHECK(prim(p) == prim(F[i]), "input " << i << " (" << F[i] << ") is not the product of basis elements " << t << " with its recorded multiplicities (" << p << ")"); }
        vh::state(vh::mix(q) ^ vh::hstr(name)); vh::outcome(t);
    }, [=](uint64_t q) { string s; for (auto& a : list(q)) s += "{" + a.str() + "} "; return s; });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(5); bool T = vh::thorough; RZ p1("18446744073709551557"), w("9223372036854775807");
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]})); static univariate_priority_order up1(X[1]);
        RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3), x1 = RP::x(0, 1), o1 = RP::c(1, 1), x2 = RP::x(0, 2), y2 = RP::x(1, 2), o2 = RP::c(1, 2);
        // every product of powers of every choice of factors
        auto powers = [](vector<RP> F, int maxe, int maxtot, vector<RQ> cs, int n) { vector<RP> out; for (auto& k : cs) { function<void(size_t, RP, int)> rec = [&](size_t i, RP p, int left) { if (i == F.size()) { out.push_back(p); return; } for (int e = 0; e <= min(maxe, left); ++e) { rec(i + 1, p, left - e); p = p * F[i]; } }; rec(0, RP::c(k, n), maxtot); } return out; };
        decs<lex>("1v.all", &lex::init, 1, dense(monos_box({T ? 6 : 5}), ints(-2, 2))); decs<lex>("1v.powers", &lex::init, 1, powers({x1, x1 + o1, x1 * RQ(-2) + o1, x1 * x1 + o1, x1 * RQ(w) - o1 * RQ(p1)}, 4, T ? 9 : 8, {RQ(1), RQ(-1), RQ(12), RQ(-8)}, 1));
        decs<lex>("2v.all", &lex::init, 2, sparse(monos_deg(2, 3), {RQ(-1), RQ(2)}, T ? 5 : 4)); decs<grlex>("2v.grlex", &grlex::init, 2, sparse(monos_deg(2, 3), {RQ(-1), RQ(4)}, T ? 3 : 2));
        vector<RP> F2{x2, y2, x2 + y2, x2 * y2 - o2, y2 * RQ(2) + o2, x2 * x2 - y2 * RQ(3)}; decs<lex>("2v.powers", &lex::init, 2, powers(F2, 3, T ? 7 : 6, {RQ(1), RQ(-4)}, 2)); decs<grlex>("2v.powers.grlex", &grlex::init, 2, powers(F2, 3, T ? 5 : 4, {RQ(-1), RQ(4)}, 2));
        vector<RP> F3{x, z, x * y + z, y - o * RQ(2), y + z, x * z - y * y * RQ(2)}; auto P3 = powers(F3, 3, T ? 6 : 5, {RQ(1), RQ(-6)}, 3); decs<lex>("3v.powers", &lex::init, 3, P3); decs<lex_<custom_var_order>>("3v.powers.lexc", &lc, 3, P3); decs<grlex_<custom_var_order>>("3v.powers.grlexc", &gc, 3, powers(F3, 2, 4, {RQ(-1)}, 3)); decs<univariate_priority_order>("3v.powers.up", &up1, 3, powers(F3, 2, 4, {RQ(2)}, 3));
        decs<lex>("3v.sparse", &lex::init, 3, sparse(monos_box({1, 1, 1}), {RQ(1), RQ(-2)}, 3));
        // bases
        bases<lex>("basis.1v", &lex::init, 1, powers({x1, x1 + o1, x1 - o1 * RQ(2)}, 3, 3, {RQ(1), RQ(-2)}, 1), T ? 3 : 2); bases<lex>("basis.1v.triples", &lex::init, 1, powers({x1, x1 + o1, x1 * x1 - o1 * RQ(2)}, 2, T ? 3 : 2, {RQ(1)}, 1), 4);
        bases<lex>("basis.2v", &lex::init, 2, powers(F2, 2, T ? 4 : 3, {RQ(1)}, 2), 2); bases<grlex>("basis.2v.grlex", &grlex::init, 2, powers(F2, 2, 2, {RQ(-2)}, 2), 2); { auto B = powers({x2, y2 + o2, x2 + y2}, 2, 2, {RQ(1)}, 2); B.push_back(RP()); B.push_back(o2 * RQ(5)); bases<lex>("basis.2v.triples", &lex::init, 2, B, 3); }
        bases<lex>("basis.3v", &lex::init, 3, powers(F3, 2, T ? 4 : 3, {RQ(1), RQ(-1)}, 3), 2); bases<lex_<custom_var_order>>("basis.3v.lexc", &lc, 3, powers(F3, 2, 2, {RQ(3)}, 3), 2); if (T) bases<lex>("basis.2v.4", &lex::init, 2, powers({x2, y2 + o2, x2 + y2}, 2, 2, {RQ(1)}, 2), 4);
    });
}
