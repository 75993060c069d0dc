// C09: evaluation, derivatives, degrees, coefficients, variables, conversions.
#include "poly.hh"
using namespace rp; using namespace std;
static vector<RP> cat(vector<RP> v, uint64_t mod) { MOD = mod; for (auto& a : v) a = a.red(); return uniq(v); }
static vector<RQ> VALS{RQ(0), RQ(1), RQ(-1), RQ(2), RQ(-3), RQ(RZ("10000000000000000000000"))};
template <class Tc, class comp> void one(const RP& a, int n, const comp* c) {
    typedef polynomial_<Tc, comp> P; const P f = lib<Tc, comp>(a, c); Ord o = ord_of(*c); string d = a.str();
    auto eq = [&](const P& p, const RP& r, const string& w) { vh::step(); RP g = from(p, n, w.c_str()); CHECK(g == r, w << " of " << d << " is " << g << ", expected " << r); };
    int64_t td = a.tdeg(); CHECK(degree(f) == td && f.degree() == td && get_deg(f) == td, "total degree of " << d);
    std::map<int, int64_t> vd; for (int i = 0; i < n; ++i) if (a.has(i)) vd[i] = a.deg(i);
    auto check_vars = [&](const std::list<std::pair<variable, int64_t>>& l, const std::map<int, int64_t>& want, const string& w) { std::map<int, int64_t> g; for (auto& x : l) { CHECK(IDX.count(x.first.serial()) && !g.count(IDX[x.first.serial()]), w << " of " << d << " repeats a variable"); g[IDX[x.first.serial()]] = x.second; } CHECK(g == want, w << " of " << d); int last = -1; for (auto& x : l) { int pos = std::find(o.prio.begin(), o.prio.end(), IDX[x.first.serial()]) - o.prio.begin(); CHECK(pos > last, w << " not in variable order"); last = pos; } };
    check_vars(get_variables(f), vd, "variables"); check_vars(f.variables(), vd, "variables"); check_vars(get_variables(std::vector<P>{P(c), f, f}), vd, "variables of list"); vh::step(6);
    CHECK(is_number(f) == a.is_const(), "is_number of " << d); if constexpr (!std::is_same_v<Tc, Zp>) { if (a.is_const()) CHECK(rp::cref(tonum(f)) == a.cst(), "tonum of " << d); else { bool t = false; try { tonum(f); } catch (std::invalid_argument&) { t = true; } CHECK(t, "tonum accepted a non-constant"); } }
    if constexpr (!std::is_same_v<comp, grlex> && !std::is_same_v<comp, grlex_<custom_var_order>>) {
        int fv = -1; for (int v : o.prio) if (v < n && a.has(v)) { fv = v; break; } bool lead = fv >= 0;
        if (lead) { CHECK(get_first_var(f) == X[fv] && get_first_deg(f) == a.deg(fv), "first variable/degree of " << d); } else CHECK(get_first_deg(f) == 0, "first degree of " << d);
        if (lead) { int lv = -1; for (int v : o.prio) if (v < n && a.has(v)) lv = v; auto q = get_last_var_deg(f); CHECK(q.first == X[lv] && q.second == a.deg(lv), "last variable/degree of " << d << " is " << q.first << "," << q.second); }
        if constexpr (std::is_same_v<Tc, ZZ>) if (lead) eq(leadcoeff(f), a.lc(fv), "leading coefficient");
        if (lead) eq(derivative(f), a.diff(fv).red(), "derivative in the main variable");
        vh::step(3);
    }
    if constexpr (std::is_same_v<comp, univariate_priority_order>) {
        int v = IDX[get_up_var(*c).serial()]; CHECK(get_up_deg(f) == a.deg(v), "main degree of " << d); auto cs = coeff(f); auto rc = a.coeffs(v); CHECK(cs.size() == rc.size(), "coeff count of " << d); for (size_t i = 0; i < cs.size(); ++i) eq(cs[i], rc[i], "coefficient " + to_string(i));
        P O(c); CHECK(leadcoeff(O, f) == a.deg(v), "leadcoeff degree"); eq(O, a.lc(v), "leading coefficient");
    }
    for (int v = 0; v <= n; ++v) {
        CHECK(degree(f, X[v]) == (v < n ? a.deg(v) : 0), "degree of " << d << " in x" << v);
        RP l = v < n ? a.lc(v) : a; eq(leadcoeff(f, X[v]), l, "leading coefficient in x" + to_string(v)); { P O(c); O.push_back({basic_monomial<comp>(c), clib<Tc>(1)}); CHECK(leadcoeff(O, f, X[v]) == (v < n ? a.deg(v) : 0), "leadcoeff degree"); eq(O, l, "leading coefficient (3 arg)"); }
        eq(derivative(f, X[v]), v < n ? a.diff(v).red() : RP(), "derivative in x" + to_string(v));
        if constexpr (!std::is_same_v<Tc, Zp>) { auto cs = coeff(f, X[v]); auto rc = v < n ? a.coeffs(v) : std::vector<RP>{a}; CHECK(cs.size() == rc.size(), "coeff count of " << d); for (size_t i = 0; i < cs.size(); ++i) eq(cs[i], rc[i], "coefficient " + to_string(i) + " in x" + to_string(v)); }
        for (auto& q : VALS) { Tc k = clib<Tc>(q); RP r = v < n ? a.subst(v, q).red() : a; eq(assign(f, X[v], k), r, "value at x" + to_string(v) + "=" + q.get_str());
            std::map<variable, Tc> m{{X[v], k}}; eq(assign(f, m), r, "value (map) at x" + to_string(v) + "=" + q.get_str()); }
        { P h = f; h = derivative(h, X[v]); h = assign(h, X[v], clib<Tc>(RQ(2))); eq(h, v < n ? a.diff(v).subst(v, 2).red() : RP(), "assigned over itself"); }
    }
    // all partial substitution maps over {absent, 0, 1, -2}
    int pw = vh::ipow(4, n); std::vector<RQ> sv{RQ(0), RQ(1), RQ(-2)};
    for (int k = 0; k < pw; ++k) { std::map<variable, Tc> m; RP r = a; int t = k; for (int v = 0; v < n; ++v, t /= 4) if (t % 4) { m[X[v]] = clib<Tc>(sv[t % 4 - 1]); r = r.subst(v, sv[t % 4 - 1]); } eq(assign(f, m), r.red(), "value at a partial point"); }
    eq(assign(f, std::map<variable, Tc>()), a, "value at no point");
    eq(f, a, "operand after the calls");
    vh::state(d + "|" + to_string(MOD));
}
template <class Tc, class comp> void add(const string& name, const comp* c, int n, uint64_t mod, vector<RP> A) {
    auto pa = make_shared<vector<RP>>(cat(A, mod));
    vh::scope(name, pa->size(), [=](uint64_t k) { MOD = mod; one<Tc, comp>((*pa)[k], n, c); }, [=](uint64_t k) { return (*pa)[k].str(); });
}
// conversions between two orders, there and back
template <class Tc, class C1, class C2> void conv(const RP& a, int n, const C1* c1, const C2* c2, const char* w) {
    polynomial_<Tc, C1> f = lib<Tc, C1>(a, c1), b(c1); polynomial_<Tc, C2> g(c2); g.push_back({basic_monomial<C2>(c2), clib<Tc>(1)}); vh::step(4);
    poly_convert(f, g); CHECK(from(g, n, w) == a, "conversion " << w << " of " << a << " gives " << from(g, n)); poly_convert(g, b); CHECK(from(b, n, w) == a && b == f, "conversion " << w << " of " << a << " and back gives " << from(b, n));
    CHECK(from(f, n) == a, "conversion changed its input"); g = f; CHECK(from(g, n, w) == a, "assignment across orders");
    poly_convert(std::move(f), g); CHECK(from(g, n, w) == a && f.empty(), "moving conversion " << w << " of " << a); f = lib<Tc, C1>(a, c1); CHECK(from(f, n) == a, "reuse after a moving conversion");
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(5); bool T = vh::thorough; RQ big(RZ("123456789012345678901234567890"));
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})), lc1(custom_var_order({X[1]})); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]})); static univariate_priority_order up0(X[0]), up1(X[1]), up2(X[2]);
        vector<RQ> zc{RQ(-1), RQ(2)}, qc{RQ(1, 2), RQ(-3)};
        auto S1 = dense(monos_box({T ? 6 : 5}), ints(-1, 2)), S2 = sparse(monos_box({3, 2}), {RQ(-1), RQ(1), RQ(3)}, 3), S3 = sparse(monos_box({2, 1, 2}), zc, T ? 4 : 3), D2 = dense(monos_deg(2, 2), ints(-1, 1));
        auto merge = [](vector<RP> a, const vector<RP>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
        add<ZZ, grlex>("ZZ.grlex.1v", &grlex::init, 1, 0, S1); add<ZZ, grlex>("ZZ.grlex.2v", &grlex::init, 2, 0, merge(S2, D2)); add<ZZ, grlex>("ZZ.grlex.3v", &grlex::init, 3, 0, S3); add<ZZ, lex>("ZZ.lex.2v", &lex::init, 2, 0, merge(S2, D2)); add<ZZ, lex>("ZZ.lex.3v", &lex::init, 3, 0, S3);
        add<ZZ, lex_<custom_var_order>>("ZZ.lexc.3v", &lc, 3, 0, S3); add<ZZ, lex_<custom_var_order>>("ZZ.lexc1.2v", &lc1, 2, 0, D2); add<ZZ, grlex_<custom_var_order>>("ZZ.grlexc.3v", &gc, 3, 0, S3);
        add<ZZ, univariate_priority_order>("ZZ.up0.3v", &up0, 3, 0, S3); add<ZZ, univariate_priority_order>("ZZ.up1.3v", &up1, 3, 0, S3); add<ZZ, univariate_priority_order>("ZZ.up2.3v", &up2, 3, 0, S3); add<ZZ, univariate_priority_order>("ZZ.up1.2v", &up1, 2, 0, merge(S2, D2));
        add<ZZ, grlex>("ZZ.big", &grlex::init, 2, 0, sparse(monos_box({2, 1}), {big, -big - 1, RQ(7)}, 3));
        add<QQ, grlex>("QQ.grlex.2v", &grlex::init, 2, 0, sparse(monos_box({3, 2}), qc, 3)); add<QQ, lex>("QQ.lex.3v", &lex::init, 3, 0, sparse(monos_box({2, 1, 1}), qc, 3));
        for (uint64_t p : {2ull, 3ull, 5ull, 4294967291ull}) { auto A = sparse(monos_box({int(p < 6 ? p + 1 : 3), 2}), p == 2 ? vector<RQ>{1} : vector<RQ>{1, 2}, 3); add<Zp, grlex>("Zp" + to_string(p) + ".grlex.2v", &grlex::init, 2, p, A); add<Zp, lex>("Zp" + to_string(p) + ".lex.2v", &lex::init, 2, p, A); add<Zp, univariate_priority_order>("Zp" + to_string(p) + ".up1.2v", &up1, 2, p, A); }
        // conversions between orders
        static auto C3 = cat(sparse(monos_box({2, 1, 2}), zc, T ? 4 : 3), 0);
        vh::scope("convert.orders", C3.size(), [](uint64_t k) { MOD = 0; auto& a = C3[k];
            conv<ZZ>(a, 3, &grlex::init, &lex::init, "grlex->lex"); conv<ZZ>(a, 3, &grlex::init, &lc, "grlex->custom lex"); conv<ZZ>(a, 3, &lex::init, &lc, "lex->custom lex"); conv<ZZ>(a, 3, &lc, &lc1, "custom->custom"); conv<ZZ>(a, 3, &gc, &lex::init, "custom grlex->lex"); for (auto* u : {&up0, &up1, &up2}) { conv<ZZ>(a, 3, &grlex::init, u, "grlex->univariate"); conv<ZZ>(a, 3, u, &lc, "univariate->custom"); conv<ZZ>(a, 3, u, &up1, "univariate->univariate"); } conv<QQ>(a, 3, &grlex::init, &lex::init, "QQ grlex->lex"); conv<QQ>(a, 3, &up1, &gc, "QQ"); 
            auto f = lib<ZZ>(a); poly_convert(f, f); CHECK(from(f, 3) == a, "self conversion"); auto h = lib<ZZ, lex>(a, &lex::init); h.comp(&lex::init); h.normalization(); CHECK(from(h, 3) == a, "re-normalisation"); vh::state(a.str() + "conv"); }, [](uint64_t k) { return C3[k].str(); });
        // conversions between rings
        static auto R2 = cat(sparse(monos_box({2, 2}), {RQ(-1), RQ(6), RQ(35), RQ(RZ("-18446744073709551616"))}, 3), 0); static auto Q2 = cat(sparse(monos_box({2, 1}), {RQ(1, 2), RQ(-3), RQ(5, 6), RQ(-7, 4)}, 3), 0);
        vh::scope("convert.ZZ-QQ", R2.size(), [](uint64_t k) { MOD = 0; auto& a = R2[k]; auto f = lib<ZZ>(a); polynomial_QQ q; poly_convert(f, q); CHECK(from(q, 2) == a, "ZZ->QQ of " << a); polynomial_ZZ z; poly_convert(q, z); CHECK(from(z, 2) == a, "QQ->ZZ of " << a); polynomial_<QQ, lex> ql(&lex::init); poly_convert(f, ql); CHECK(from(ql, 2) == a, "ZZ->QQ lex"); polynomial_QQ q2(f); CHECK(from(q2, 2) == a, "construct QQ from ZZ"); vh::step(4);
            for (uint64_t p : {2ull, 3ull, 5ull, 7ull, 4294967291ull, 18446744073709551557ull}) { MOD = p; RP r = a.red(); auto m = polynomial_mod(f, p); CHECK(from(m, 2, "mod") == r, a << " mod " << p << " is " << from(m, 2)); auto g = f; auto m2 = polynomial_mod(std::move(g), p); CHECK(from(m2, 2) == r && g.empty(), "moving mod"); auto fl = lib<ZZ, lex>(a, &lex::init); CHECK(from(polynomial_mod(fl, p), 2) == r, "mod in lex"); MOD = 0; polynomial_ZZ b; 
                vh::step(3); } vh::state(a.str() + "ring"); }, [](uint64_t k) { return R2[k].str(); });
        vh::scope("convert.QQ-ZZ", Q2.size(), [](uint64_t k) { MOD = 0; auto& a = Q2[k]; auto f = lib<QQ>(a); RZ den = 1; for (auto& t : a.t) mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), t.second.get_den_mpz_t()); RP w = a * RQ(den); polynomial_ZZ z; poly_convert(f, z); CHECK(from(z, 2) == w, "QQ->ZZ of " << a << " is " << from(z, 2)); polynomial_<ZZ, lex> zl(&lex::init); poly_convert(f, zl); CHECK(from(zl, 2) == w, "QQ->ZZ lex"); auto g = f; poly_convert(std::move(g), z); CHECK(from(z, 2) == w && g.empty(), "moving QQ->ZZ of " << a << " is " << from(z, 2)); 
            if (!a.has(1)) { RP u; for (auto& t : a.t) u.t[Mon{t.first[0]}] = t.second; auto uf = ulib<QQ>(u); upolynomial_ZZ uz; poly_convert(uf, uz); CHECK(from(uz) == u * RQ(den), "univariate QQ->ZZ"); upolynomial_<QQ> b; poly_convert(uz, b); CHECK(from(b) == u * RQ(den), "univariate ZZ->QQ"); } vh::step(3); vh::state(a.str() + "qz"); }, [](uint64_t k) { return Q2[k].str(); });
        // exponents at and beyond every machine-word boundary: the structural operations stay exact
        static vector<RP> HG; { vector<int64_t> E{1, 3, (1ll << 31) - 1, 1ll << 31, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 5, 1ll << 40, (1ll << 53) + 1, (1ll << 60) + 3}; vector<Mon> ms; for (auto e : E) { ms.push_back({e, 0, 0}); ms.push_back({e, 1, 0}); ms.push_back({2, e, 0}); ms.push_back({0, e, 1}); ms.push_back({0, e, e}); } ms.push_back({0, 0, 0}); HG = cat(sparse(ms, {RQ(-3), RQ(1)}, T ? 3 : 2), 0); }
        auto huge = [](auto tag, uint64_t mod, const auto* c, const RP& r) { typedef decltype(tag) Tc; typedef std::decay_t<decltype(*c)> comp; typedef polynomial_<Tc, comp> P; MOD = mod; RP a = r.red(); const P f = lib<Tc, comp>(a, c); string d = a.str() + (mod ? " mod " + to_string(mod) : ""); auto eq = [&](const P& p, const RP& e, const string& w) { vh::step(); CHECK(from(p, 3, w.c_str()) == e, w << " of " << d << " is " << from(p, 3) << ", expected " << e); };
            CHECK(degree(f) == a.tdeg() && get_deg(f) == a.tdeg(), "total degree of " << d << " is " << degree(f)); for (int v = 0; v < 3; ++v) { CHECK(degree(f, X[v]) == a.deg(v), "degree of " << d << " in x" << v << " is " << degree(f, X[v])); RP df; for (auto& t : a.t) if (t.first[v]) { Mon m = t.first; --m[v]; df.add(m, t.second * RQ(RZ(to_string(t.first[v])))); } eq(derivative(f, X[v]), df.red(), "derivative in x" + to_string(v)); { RP l; for (auto& t : a.t) if (t.first[v] == a.deg(v)) { Mon m = t.first; m[v] = 0; l.add(m, t.second); } eq(leadcoeff(f, X[v]), l, "leading coefficient in x" + to_string(v)); }
                for (long q : {0, 1, -1}) { RP s; for (auto& t : a.t) { Mon m = t.first; int64_t e = m[v]; m[v] = 0; s.add(m, t.second * RQ(!e ? 1l : q == -1 ? (e & 1 ? -1l : 1l) : q)); } if (q != -1 || !mod) eq(assign(f, X[v], clib<Tc>(RQ(q))), s.red(), "value at x" + to_string(v) + "=" + to_string(q)); } }
            if constexpr (!std::is_same_v<Tc, Zp>) { polynomial_<Tc, grlex> g; poly_convert(f, g); CHECK(from(g, 3) == a, "conversion of " << d << " is " << from(g, 3)); } vh::step(7); if constexpr (!std::is_same_v<Tc, Zp>) if (!a.has(1) && !a.has(2)) { upolynomial_<Tc> u; poly_convert(f, u); RP w, dw; for (auto& t : a.t) { w.t[Mon{t.first[0]}] = t.second; if (t.first[0]) dw.t[Mon{t.first[0] - 1}] = t.second * RQ(RZ(to_string(t.first[0]))); } CHECK(from(u) == w && get_deg(u) == a.deg(0), "univariate form of " << d); CHECK(from(derivative(u)) == dw, "univariate derivative of " << d << " is " << from(derivative(u))); P b(c); poly_convert(u, b, X[2]); CHECK(degree(b, X[2]) == a.deg(0), "back from univariate " << d); }
        };
        vh::scope("huge.exponents", HG.size(), [=](uint64_t k) { auto& a = HG[k]; huge(ZZ(), 0, &grlex::init, a); huge(ZZ(), 0, &lex::init, a); huge(ZZ(), 0, &up1, a); huge(QQ(), 0, &lc, a); huge(Zp(), 4294967291ull, &grlex::init, a); huge(Zp(), 3, &lex::init, a); vh::state(a.str() + "huge"); }, [](uint64_t k) { return HG[k].str(); });
        // univariate objects
        static auto U = cat(dense(monos_box({T ? 5 : 4}), {RQ(0), RQ(-1), RQ(1), RQ(3), RQ(-10)}), 0);
        vh::scope("univariate.ZZ", U.size(), [](uint64_t k) { MOD = 0; auto& a = U[k]; auto f = ulib<ZZ>(a); vh::step(8);
            CHECK(degree(f) == a.deg(0) && get_deg(f) == a.deg(0), "degree of " << a); CHECK(is_number(f) == a.is_const(), "is_number"); CHECK(from(derivative(f)) == a.diff(0), "derivative of " << a << " is " << from(derivative(f)));
            for (auto& q : VALS) { CHECK(rp::cref(assign(f, clib<ZZ>(q))) == a.subst(0, q).cst(), "value of " << a << " at " << q); CHECK(rp::cref(assign<QQ>(f, clib<QQ>(q / 3))) == a.subst(0, q / 3).cst(), "value of " << a << " at " << q / 3); vh::step(2); }
            for (int v = 0; v < 3; ++v) { RP w; for (auto& t : a.t) { Mon m(3, 0); m[v] = t.first[0]; w.t[m] = t.second; } polynomial_ZZ p; poly_convert(f, p, X[v]); CHECK(from(p, 3) == w, "univariate -> multivariate"); polynomial_<ZZ, lex> pl(&lex::init); poly_convert(f, pl, X[v]); CHECK(from(pl, 3) == w, "univariate -> lex"); polynomial_<ZZ, univariate_priority_order> pu(&up1); poly_convert(f, pu, X[v]); CHECK(from(pu, 3) == w, "univariate -> univariate order"); upolynomial_ZZ b; poly_convert(p, b); CHECK(b == f, "multivariate -> univariate"); poly_convert(pl, b); CHECK(b == f, "lex -> univariate"); poly_convert(pu, b); CHECK(from(b) == a, "back"); vh::step(6); }
            for (uint64_t p : {2ull, 3ull, 5ull, 4294967291ull}) { MOD = p; RP r = a.red(); auto m = polynomial_mod(f, p); CHECK(from(m) == r, "mod " << p); CHECK(from(derivative(m)) == r.diff(0).red(), "derivative of " << r << " mod " << p << " is " << from(derivative(m))); for (int e : {0, 1, 2, -1}) if (!r.zero()) { RQ x = norm(RQ(e)); RQ w = norm(r.subst(0, x).cst()); CHECK(rp::cref(assign(m, clib<Zp>(x))) == w, "value of " << r << " at " << e << " mod " << p); } upolynomial_ZZ z; poly_convert(m, z); MOD = 0; CHECK(from(z) == r, "Zp -> ZZ lift"); vh::step(4); }
            vh::state(a.str() + "u"); }, [](uint64_t k) { return U[k].str(); });
    });
}
