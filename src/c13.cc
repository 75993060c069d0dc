// C13: resultants, discriminants, subresultant chains against determinants.
#include "algebra.hh"
using namespace rp; using namespace std;
// row x^s * f over columns x^(w-1) .. x^0
typedef vector<vector<RP>> Mat;
RP dete(const Mat& M, int n) { // entries all constant: plain rational elimination
    for (auto& r : M) for (auto& e : r) if (!e.is_const()) return det(M, n);
    int k = M.size(); vector<vector<RQ>> A(k, vector<RQ>(k)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) A[i][j] = M[i][j].cst();
    RQ d = 1; for (int c = 0; c < k; ++c) { int p = c; while (p < k && A[p][c] == 0) ++p; if (p == k) return RP(); if (p != c) { swap(A[p], A[c]); d = norm(-d); } d = norm(d * A[c][c]); RQ iv = norm(RQ(1) / A[c][c]); for (int i = c + 1; i < k; ++i) if (A[i][c] != 0) { RQ f = norm(A[i][c] * iv); for (int j = c; j < k; ++j) A[i][j] = norm(A[i][j] - f * A[c][j]); } }
    return RP::c(d, n);
}
// j-th subresultant of f (degree m) and g (degree l) in x_v: determinant polynomial of the rows x^{l-j-1}f..f, x^{m-j-1}g..g
RP subres(const RP& f, const RP& g, int v, int m, int l, int j, int n) {
    auto cf = f.coeffs(v), cg = g.coeffs(v); cf.resize(m + 1); cg.resize(l + 1); int R = m + l - 2 * j, W = m + l - j; RP out;
    for (int i = 0; i <= j; ++i) { Mat M; for (int s = l - j - 1; s >= 0; --s) { vector<RP> r; for (int c = 0; c < R; ++c) { int e = c < R - 1 ? W - 1 - c : i; int k = e - s; r.push_back(k >= 0 && k <= m ? cf[k] : RP()); } M.push_back(r); }
        for (int s = m - j - 1; s >= 0; --s) { vector<RP> r; for (int c = 0; c < R; ++c) { int e = c < R - 1 ? W - 1 - c : i; int k = e - s; r.push_back(k >= 0 && k <= l ? cg[k] : RP()); } M.push_back(r); }
        out = out + dete(M, n).shift(v, i); }
    return out.red();
}
RP rres(const RP& f, const RP& g, int v, int n) { if (f.zero() || g.zero()) return RP(); return subres(f, g, v, f.deg(v), g.deg(v), 0, n); }
template <class Tc, class comp> void one(const RP& a, const RP& b, int v, const comp* c, int n, bool chain) {
    auto f = lib<Tc, comp>(a, c), g = lib<Tc, comp>(b, c); RP w = rres(a, b, v, n), r = from(resultant(f, g, X[v]), n, "resultant"); vh::step();
    CHECK(r == w, "resultant of " << a << " , " << b << " in x" << v << " = " << r << ", Sylvester determinant " << w); CHECK(from(f, n) == a && from(g, n) == b, "operand changed");
    if (!a.zero() && !b.zero() && !MOD && n < 4) { RP h = fgcd(a, b); CHECK((h.deg(v) > 0) == w.zero(), "reference: common factor vs resultant"); }
    int m = a.deg(v), l = b.deg(v); if (!chain || l < 1 || m < l) return;
    auto L = subresultant(f, g, X[v]); int u = l < m ? m : m + 1; vh::step(); CHECK((int)L.size() == u + 1, "chain of " << a << " , " << b << " has " << L.size() << " entries, expected " << u + 1);
    for (int j = 0; j <= u; ++j) { RP e = j == u ? a : j == u - 1 ? b : j <= l ? subres(a, b, v, m, l, j, n) : RP(); RP x = from(L[j], n, "subresultant"); CHECK(x == e, "subresultant " << j << " of " << a << " , " << b << " in x" << v << " = " << x << ", determinant polynomial " << e); }
    auto L0 = subresultant(f, g, X[v], false); CHECK(L0.size() == 1 && from(L0[0], n) == w, "non-list subresultant of " << a << " , " << b << " = " << from(L0[0], n) << ", expected " << w);
}
template <class Tc, class comp> void pairs(const string& name, const comp* c, int n, vector<int> vs, vector<RP> A, vector<RP> B, uint64_t mod = 0, bool chain = true) {
    MOD = mod; for (auto* s : {&A, &B}) { for (auto& a : *s) a = a.red(); *s = uniq(*s); } MOD = 0; auto pa = make_shared<vector<RP>>(A), pb = make_shared<vector<RP>>(B); uint64_t k = B.size();
    vh::scope(name, A.size() * k, [=](uint64_t q) { MOD = mod; for (int v : vs) { one<Tc, comp>((*pa)[q / k], (*pb)[q % k], v, c, n, chain); if (pa->size() != k) one<Tc, comp>((*pb)[q % k], (*pa)[q / k], v, c, n, chain); } MOD = 0; vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pb)[q % k].str() + (mod ? " mod " + to_string(mod) : ""); });
}
template <class comp> void discs(const string& name, const comp* c, int n, vector<int> vs, vector<RP> A) {
    A = uniq(A); auto pa = make_shared<vector<RP>>(A);
    vh::scope(name, A.size(), [=](uint64_t q) { MOD = 0; const RP& a = (*pa)[q]; auto f = lib<ZZ, comp>(a, c); for (int v : vs) { int m = a.deg(v); if (a.zero()) continue; RP d = from(discriminant(f, X[v]), n, "discriminant"); vh::step(); if (m < 1) { CHECK(d.zero(), "discriminant of a constant"); continue; } RP w = exq(rres(a, a.diff(v), v, n), a.lc(v)); if (m * (m - 1) / 2 % 2) w = -w; CHECK(d == w, "discriminant of " << a << " in x" << v << " = " << d << ", expected " << w);
        if (m == 2) { auto k = a.coeffs(v); CHECK(d == k[1] * k[1] - k[0] * k[2] * RQ(4), "b^2-4ac"); } } vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q].str(); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(6); bool T = vh::thorough; RZ big("123456789012345678901234567890"), w("9223372036854775807");
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static univariate_priority_order up1(X[1]), up0(X[0]); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]}));
        auto U = dense(monos_box({4}), ints(-1, 1)); pairs<ZZ, grlex>("1v.dense", &grlex::init, 1, {0}, U, U); pairs<ZZ, lex>("1v.gaps", &lex::init, 1, {0}, sparse(monos_box({T ? 7 : 6}), {RQ(1), RQ(-2)}, T ? 3 : 2), sparse(monos_box({T ? 7 : 6}), {RQ(2)}, T ? 3 : 4));
        pairs<ZZ, grlex>("1v.deg3", &grlex::init, 1, {0}, dense(monos_box({3}), T ? ints(-2, 2) : vector<RQ>{RQ(0), RQ(2), RQ(-3)}), dense(monos_box({3}), ints(-2, 2))); pairs<ZZ, grlex>("1v.word", &grlex::init, 1, {0}, dense(monos_box({2}), {RQ(0), RQ(w), RQ(-w - 1), RQ(1), RQ(big)}), dense(monos_box({2}), {RQ(0), RQ(w), RQ(-w - 1), RQ(1), RQ(big)}));
        pairs<ZZ, univariate_priority_order>("1v.up", &up0, 1, {0}, dense(monos_box({3}), ints(-1, 1)), dense(monos_box({3}), ints(-1, 1)));
        { RP x = RP::x(0, 1), o = RP::c(1, 1); vector<RP> F; for (int a = -2; a <= 2; ++a) F.push_back(x - o * RQ(a)); F.push_back(x * x + o); F.push_back(x * x * RQ(2) - o); vector<RP> P{o * RQ(3)}; for (int d = 1; d <= (T ? 5 : 4); ++d) { function<void(size_t, RP, int)> rec = [&](size_t i, RP p, int k) { if (!k) { P.push_back(p); return; } for (size_t j = i; j < F.size(); ++j) rec(j, p * F[j], k - 1); }; rec(0, o, d); } auto Q = vector<RP>(P.begin(), P.begin() + 120); pairs<ZZ, grlex>("1v.shared", &grlex::init, 1, {0}, Q, T ? P : Q); discs("disc.shared", &grlex::init, 1, {0}, P); }
        // one parameter, both elimination variables, every order
        auto S2 = sparse(monos_box({3, 1}), {RQ(1), RQ(-2)}, 2), D2 = sparse(monos_box({3, 1}), {RQ(1)}, T ? 4 : 3); pairs<ZZ, grlex>("2v", &grlex::init, 2, {0, 1}, S2, D2); pairs<ZZ, lex>("2v.lex", &lex::init, 2, {0, 1}, D2, S2); auto G2 = sparse(monos_box({4, 1}), {RQ(-1)}, 3); pairs<ZZ, univariate_priority_order>("2v.up", &up1, 2, {1}, D2, D2); pairs<ZZ, univariate_priority_order>("2v.up.other", &up1, 2, {0}, D2, D2, 0, false); pairs<ZZ, grlex>("2v.gaps", &grlex::init, 2, {0}, G2, T ? G2 : S2);
        // two parameters
        auto S3 = sparse(monos_box({2, 1, 1}), {RQ(1), RQ(-3)}, 2), T3 = sparse(monos_box({2, 1, 1}), {RQ(1)}, T ? 3 : 2); pairs<ZZ, lex_<custom_var_order>>("3v.lexc", &lc, 3, {0, 1, 2}, T3, S3); pairs<ZZ, grlex>("3v", &grlex::init, 3, {0, 2}, S3, T3); pairs<ZZ, grlex_<custom_var_order>>("3v.grlexc", &gc, 3, {0, 1}, T3, T3);
        // more parameters: coefficients chosen from a list of parameter expressions (matrix method)
        auto par = [](int n, int d, vector<RP> cs) { vector<RP> out; uint64_t N = vh::ipow(cs.size(), d + 1); for (uint64_t i = 0; i < N; ++i) { RP p; uint64_t t = i; for (int e = 0; e <= d; ++e, t /= cs.size()) p = p + cs[t % cs.size()].shift(0, e); out.push_back(p); } return out; };
        RP a4 = RP::x(1, 4), b4 = RP::x(2, 4), c4 = RP::x(3, 4), o4 = RP::c(1, 4); vector<RP> base4{RP::x(0, 4, 3) + a4 * b4 * RP::x(0, 4) - c4, RP::x(0, 4, 2) * a4 + b4 * RP::x(0, 4) + c4, RP::x(0, 4) * (a4 - b4) + c4, RP::x(0, 4, 3) * c4 + (a4 + b4) * RP::x(0, 4, 2) - o4, a4 * b4 * c4 + o4, RP::x(0, 4, 2) * c4 - a4 * b4};
        pairs<ZZ, grlex>("4v", &grlex::init, 4, {0, 1, 3}, par(4, T ? 3 : 2, {RP(), o4, a4, b4 * RQ(-2)}), base4); pairs<ZZ, lex>("4v.lex", &lex::init, 4, {0, 2}, par(4, 2, {RP(), a4, b4 - c4, c4}), base4); pairs<ZZ, grlex>("4v.products", &grlex::init, 4, {0, 1, 2, 3}, base4, [&] { vector<RP> r; for (size_t i = 0; i < base4.size(); ++i) for (size_t j = i; j < base4.size(); ++j) if (base4[i].deg(0) + base4[j].deg(0) <= (T ? 5 : 4)) r.push_back(base4[i] * base4[j]); return r; }());
        RP a5 = RP::x(1, 5), b5 = RP::x(2, 5), c5 = RP::x(3, 5), d5 = RP::x(4, 5), x5 = RP::x(0, 5); vector<RP> base5{x5 * x5 * a5 + b5 * x5 + c5, x5 * x5 * b5 + d5, x5 * d5 - a5, x5 * x5 * x5 * c5 + a5 * x5 + d5 * b5, (x5 * a5 + b5) * (x5 * c5 + d5), (x5 * a5 + b5) * (x5 - d5)}; pairs<ZZ, grlex>("5v", &grlex::init, 5, {0, 1, 3}, base5, base5);
        // discriminants
        discs("disc.1v", &grlex::init, 1, {0}, dense(monos_box({4}), ints(-2, 2))); discs("disc.deg", &lex::init, 1, {0}, sparse(monos_box({T ? 9 : 8}), {RQ(1), RQ(-3)}, 3)); discs("disc.2v", &grlex::init, 2, {0, 1}, sparse(monos_box({3, 2}), {RQ(1), RQ(-2)}, 3)); discs("disc.3v", &lc, 3, {0, 1, 2}, sparse(monos_box({2, 1, 1}), {RQ(1), RQ(-2)}, 3)); discs("disc.up", &up1, 2, {0, 1}, sparse(monos_box({3, 2}), {RQ(3), RQ(-1)}, 2)); discs("disc.4v", &grlex::init, 4, {0}, par(4, 2, {RP(), a4, b4 - o4, c4, a4 * b4})); 
    });
}
