// C08: pseudo-remainder / pseudo-quotient identities.
#include "poly.hh"
using namespace rp; using namespace std;
// reference: lc^e * G = Q*F + R with e = max(dg-df+1,0), textbook algorithm
static void refp(const RP& G, const RP& F, int v, int n, RP& Q, RP& R) {
    int64_t df = F.deg(v), dg = G.deg(v); RP l = F.lc(v), one = RP::c(1, n); int64_t e = max<int64_t>(dg - df + 1, 0); Q = RP(); R = G;
    if (G.zero()) { return; }
    while (!R.zero() && R.deg(v) >= df && e > 0) { RP s = R.lc(v).shift(v, R.deg(v) - df); Q = Q * l + s; R = R * l - s * F; --e; if (df == 0 && R.zero()) break; }
    RP p = rpow(l, e, n); Q = Q * p; R = R * p;
}
static string ds(const RP& g, const RP& f, int v) { return "(" + g.str() + ") by (" + f.str() + ") in x" + to_string(v); }
template <class Tc, class comp> void checkp(const RP& g, const RP& f, int v, int n, const comp* c) {
    typedef polynomial_<Tc, comp> P; P G = lib<Tc, comp>(g, c), F = lib<Tc, comp>(f, c);
    if (f.zero()) { int t = 0; try { prem(G, F, X[v]); } catch (std::invalid_argument&) { ++t; } try { pquo(G, F, X[v]); } catch (std::invalid_argument&) { ++t; } P R(c); try { pquo(R, G, F, X[v]); } catch (std::invalid_argument&) { ++t; } CHECK(t == 3, "pseudo-division by zero accepted"); return; }
    RP Q, R, l = f.lc(v); refp(g, f, v, n, Q, R); CHECK(g.zero() || Q * f + R == rpow(l, max<int64_t>(g.deg(v) - f.deg(v) + 1, 0), n) * g, "reference error");
    vh::step(6);
    RP r = from(prem(G, F, X[v]), n, "prem"); CHECK(r == R, "prem of " << ds(g, f, v) << " is " << r << ", expected " << R);
    P LR(c); P LQ = pquo(LR, G, F, X[v]); RP q = from(LQ, n, "pquo"), r2 = from(LR, n, "pquo remainder");
    CHECK(q == Q && r2 == R, "pquo of " << ds(g, f, v) << " gives quotient " << q << " remainder " << r2 << ", expected " << Q << " and " << R);
    CHECK(from(pquo(G, F, X[v]), n) == Q, "pquo of " << ds(g, f, v) << ": quotient-only form");
    // sparse mode: some power 0..e
    RP rs = from(prem(G, F, X[v], false), n, "sparse prem"); P SR(c); RP qs = from(pquo(SR, G, F, X[v], false), n, "sparse pquo"), rs2 = from(SR, n);
    CHECK(rs == rs2, "sparse prem and pquo of " << ds(g, f, v) << " disagree: " << rs << " / " << rs2);
    CHECK(rs.zero() || rs.deg(v) < f.deg(v), "sparse prem of " << ds(g, f, v) << " does not reduce the degree: " << rs);
    int64_t e = g.zero() ? 0 : max<int64_t>(g.deg(v) - f.deg(v) + 1, 0); bool ok = false; RP lk = RP::c(1, n);
    for (int64_t k = 0; k <= e && !ok; ++k) { ok = lk * g == qs * f + rs; lk = lk * l; }
    CHECK(ok, "sparse pseudo-division of " << ds(g, f, v) << " gives " << qs << " and " << rs << ", which satisfies the identity for no admissible power");
    P a = G; a = prem(a, F, X[v]); CHECK(from(a, n) == R, "prem assigned to its operand");
    vh::state(g.str() + "/" + f.str() + "/" + to_string(v)); vh::outcome(R.str());
}
// in-order form prem(O,G,F,v) / pquo(Q,R,G,F,v): v must be the main variable
template <class Tc, class comp> void check3(const RP& g, const RP& f, int v, int n, const comp* c) {
    typedef polynomial_<Tc, comp> P; P G = lib<Tc, comp>(g, c), F = lib<Tc, comp>(f, c), O(c), LQ(c), LR(c);
    if (f.zero()) { int t = 0; try { prem(O, G, F, X[v]); } catch (std::invalid_argument&) { ++t; } try { pquo(LQ, LR, G, F, X[v]); } catch (std::invalid_argument&) { ++t; } CHECK(t == 2, "pseudo-division by zero accepted"); return; }
    RP Q, R, l = f.lc(v); refp(g, f, v, n, Q, R); vh::step(4);
    prem(O, G, F, X[v]); CHECK(from(O, n, "prem") == R, "prem of " << ds(g, f, v) << " is " << from(O, n) << ", expected " << R);
    pquo(LQ, LR, G, F, X[v]); CHECK(from(LQ, n, "pquo") == Q && from(LR, n, "pquo remainder") == R, "pquo of " << ds(g, f, v) << " gives " << from(LQ, n) << " remainder " << from(LR, n) << ", expected " << Q << " and " << R);
    prem(O, G, F, X[v], false); pquo(LQ, LR, G, F, X[v], false); RP rs = from(O, n), qs = from(LQ, n), rs2 = from(LR, n); CHECK(rs == rs2, "sparse prem and pquo of " << ds(g, f, v) << " disagree: " << rs << " / " << rs2);
    CHECK(rs.zero() || rs.deg(v) < f.deg(v), "sparse prem of " << ds(g, f, v) << " does not reduce the degree: " << rs);
    int64_t e = g.zero() ? 0 : max<int64_t>(g.deg(v) - f.deg(v) + 1, 0); bool ok = false; RP lk = RP::c(1, n);
    for (int64_t k = 0; k <= e && !ok; ++k) { ok = lk * g == qs * f + rs; lk = lk * l; }
    CHECK(ok, "sparse pseudo-division of " << ds(g, f, v) << " satisfies the identity for no admissible power"); vh::state(g.str() + "/" + f.str() + "//" + to_string(MOD)); vh::outcome(R.str());
}
template <class Tc, class comp> void add3(const string& name, const comp* c, int v, int n, uint64_t mod, vector<RP> A, vector<RP> B) {
    MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red(); auto pa = make_shared<vector<RP>>(uniq(A)), pb = make_shared<vector<RP>>(uniq(B)); uint64_t nb = pb->size(), na = pa->size();
    vh::scope(name, na * nb, [=](uint64_t k) { MOD = mod; check3<Tc, comp>((*pa)[k / nb], (*pb)[k % nb], v, n, c); }, [=](uint64_t k) { return ds((*pa)[k / nb], (*pb)[k % nb], v); });
}
template <class Tc, class comp> void add(const string& name, const comp* c, int n, uint64_t mod, vector<RP> A, vector<RP> B) {
    MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red(); auto pa = make_shared<vector<RP>>(uniq(A)), pb = make_shared<vector<RP>>(uniq(B));
    uint64_t nb = pb->size(), na = pa->size();
    vh::scope(name, na * nb * n, [=](uint64_t k) { MOD = mod; checkp<Tc, comp>((*pa)[k / n / nb], (*pb)[k / n % nb], k % n, n, c); }, [=](uint64_t k) { return ds((*pa)[k / n / nb], (*pb)[k / n % nb], k % n); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(4); bool T = vh::thorough; RQ big(RZ("100000000000000000000000000007"));
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]})); static univariate_priority_order up0(X[0]), up1(X[1]);
        auto U4 = dense(monos_box({4}), ints(-1, 1)), U2 = dense(monos_box({2}), ints(-2, 2));
        add<ZZ, grlex>("ZZ.1v", &grlex::init, 1, 0, dense(monos_box({T ? 5 : 4}), ints(T ? -1 : -2, T ? 1 : 2)), dense(monos_box({2}), ints(-2, 3)));
        add<ZZ, lex>("ZZ.lex.1v", &lex::init, 1, 0, U4, U2);
        add<ZZ, univariate_priority_order>("ZZ.up0.1v", &up0, 1, 0, U4, dense(monos_box({3}), ints(-1, 2)));
        auto A2 = sparse(monos_box({3, 2}), {RQ(1), RQ(-2)}, T ? 3 : 2), B2 = sparse(monos_box({2, 1}), {RQ(1), RQ(-1), RQ(3)}, T ? 4 : 3);
        add<ZZ, grlex>("ZZ.grlex.2v", &grlex::init, 2, 0, A2, B2); add<ZZ, lex>("ZZ.lex.2v", &lex::init, 2, 0, A2, B2);
        add<ZZ, univariate_priority_order>("ZZ.up1.2v", &up1, 2, 0, sparse(monos_box({2, 3}), {RQ(1), RQ(-2)}, 2), B2);
        auto A3 = sparse(monos_box({2, 1, 1}), {RQ(2), RQ(-1)}, 2), B3 = sparse(monos_box({1, 1, 1}), {RQ(1), RQ(-3)}, T ? 3 : 2);
        add<ZZ, lex_<custom_var_order>>("ZZ.lexc.3v", &lc, 3, 0, A3, B3); add<ZZ, grlex_<custom_var_order>>("ZZ.grlexc.3v", &gc, 3, 0, A3, B3);
        add<ZZ, lex>("ZZ.big", &lex::init, 2, 0, sparse(monos_box({2, 2}), {big, RQ(-3)}, 2), sparse(monos_box({2, 1}), {big + 1, RQ(5)}, 2));
        add<QQ, grlex>("QQ.2v", &grlex::init, 2, 0, sparse(monos_box({3, 1}), {RQ(1, 2), RQ(-2)}, 2), sparse(monos_box({1, 1}), {RQ(1), RQ(-2, 3)}, 3));
        add3<ZZ, lex>("ZZ.lex.inorder", &lex::init, 0, 2, 0, A2, B2); add3<ZZ, univariate_priority_order>("ZZ.up1.inorder", &up1, 1, 2, 0, sparse(monos_box({2, 3}), {RQ(1), RQ(-2)}, 2), B2); add3<QQ, lex_<custom_var_order>>("QQ.lexc.inorder", &lc, 2, 3, 0, sparse(monos_box({1, 1, 2}), {RQ(2, 3), RQ(-1)}, 2), B3);
        for (uint64_t p : {2ull, 3ull, 18446744073709551557ull}) { add3<Zp, lex>("Zp" + to_string(p) + ".lex", &lex::init, 0, 2, p, dense(monos_box({p == 2 ? 3 : 2, 1}), p == 2 ? ints(0, 1) : vector<RQ>{0, 2}), sparse(monos_box({2, 1}), ints(1, 2), 3)); add3<Zp, univariate_priority_order>("Zp" + to_string(p) + ".up1", &up1, 1, 2, p, sparse(monos_box({2, 3}), {RQ(1), RQ(2)}, 2), B2); }
        // univariate wrapper
        static auto G = dense(monos_box({4}), ints(-1, 2)), F = dense(monos_box({2}), ints(-2, 3));
        vh::scope("upoly_prem", G.size() * F.size(), [](uint64_t k) { MOD = 0; const RP &g = G[k / F.size()], &f = F[k % F.size()]; auto lg = ulib<ZZ>(g), lf = ulib<ZZ>(f); upolynomial_<ZZ> R;
            if (f.zero()) { bool t = false; try { upoly_prem(R, lg, lf, X[0]); } catch (std::invalid_argument&) { t = true; } CHECK(t, "pseudo-division by zero accepted"); return; }
            RP q, r; refp(g, f, 0, 1, q, r); upoly_prem(R, lg, lf, X[0]); vh::step(); CHECK(from(R) == r, ds(g, f, 0) << ": upoly_prem gives " << from(R) << ", expected " << r); },
            [](uint64_t k) { return ds(G[k / F.size()], F[k % F.size()], 0); });
    });
}
