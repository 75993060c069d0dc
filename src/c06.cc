// C06: polynomial + - * pow scalar multiples, canonical results, aliasing.
#include "poly.hh"
using namespace rp; using namespace std;

template <class Tc, class comp> struct Ring {
    string name; const comp* c; int n; uint64_t mod;
    vector<RP> A, B; vector<polynomial_<Tc, comp>> LA, LB;
    typedef polynomial_<Tc, comp> P;
    void fill() { MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red(); A = uniq(A); B = uniq(B); for (auto& a : A) LA.push_back(lib<Tc, comp>(a, c)); for (auto& b : B) LB.push_back(lib<Tc, comp>(b, c)); }
    static void eq(const P& p, const RP& r, int n, const char* w) { vh::step(); RP g = from(p, n, w); if (g != r) vh::fail(string(w) + ": got " + g.str() + " expected " + r.str()); }
    void pair(size_t i, size_t j) {
        MOD = mod; const RP &a = A[i], &b = B[j]; const P &f = LA[i], &g = LB[j];
        RP s = a + b, d = a - b, m = a * b;
        eq(f + g, s, n, "f+g"); eq(g + f, s, n, "g+f"); eq(f - g, d, n, "f-g"); eq(g - f, -d, n, "g-f"); eq(f * g, m, n, "f*g"); eq(g * f, m, n, "g*f");
        CHECK((f == g) == (a == b) && (f != g) == (a != b), "f==g");
        CHECK(from(f, n) == a && from(g, n) == b, "operand changed");
        vh::state(vh::mix(i * 1000003 + j) ^ vh::hstr(name));
    }
    void single(size_t i) {
        MOD = mod; const RP& a = A[i]; const P& f = LA[i];
        eq(f, a, n, "f"); eq(-f, -a, n, "-f"); eq(+f, a, n, "+f"); eq(f + f, a + a, n, "f+f"); eq(f - f, RP(), n, "f-f"); eq(f * f, a * a, n, "f*f");
        RP p = RP::c(1, n).red(); for (int e = 0; e <= 5; ++e) { if (!(e == 0 && a.zero() && mod)) eq(pow(f, e), p, n, "pow"); p = p * a; }
        P h = f; h = h + h; eq(h, a + a, n, "h=h+h"); h = f; h = h * h; eq(h, a * a, n, "h=h*h"); h = f; h = h - h; eq(h, RP(), n, "h=h-h"); eq(h + f, a, n, "0+f"); eq(h * f, RP(), n, "0*f"); eq(f * h, RP(), n, "f*0");
        h = f; h = h * h - h + f; eq(h, a * a, n, "h*h-h+f");
        // raw in-place kernels with aliased output
        auto v = f.data(); pair_vec_add(v, v, f.data(), *c); eq(mkp(v), a + a, n, "add aliased"); v = f.data(); pair_vec_sub(v, f.data(), v, *c); eq(mkp(v), RP(), n, "sub aliased");
        v = f.data(); pair_vec_multiplies(v, v, v, *c); eq(mkp(v), a * a, n, "mul aliased");
        for (RQ q : {RQ(0), RQ(1), RQ(-1), RQ(2), RQ(3), RQ(-7), RQ(RZ("100000000000000000000"))}) { Tc k = clib<Tc>(q); P s = f * k; eq(s, a * q, n, "f*scalar"); eq(s + f, a * (q + RQ(1)), n, "f*scalar + f"); eq(s - f, a * (q - RQ(1)), n, "f*scalar - f"); eq(s * f, a * a * q, n, "f*scalar * f"); }
        // unsorted, repeated and cancelling term lists normalise to the canonical form
        vector<std::pair<basic_monomial<comp>, Tc>> raw; for (auto r = f.data().rbegin(); r != f.data().rend(); ++r) { raw.push_back(*r); raw.push_back({r->first, -r->second}); raw.push_back(*r); }
        h = f; h.data() = raw; h.normalization(); eq(h, a, n, "normalise repeated terms");
        for (size_t k = 0; k < f.size(); ++k) { auto w = raw; w.push_back({f[k].first, -f[k].second}); h = P(c); h.data() = w; h.normalization(); RP e = a; e.add(mref(f[k].first, n), -cref(f[k].second)); eq(h, e, n, "normalise cancelling terms"); }
        P z(f); P y(std::move(z)); eq(y, a, n, "move"); z = f; eq(z, a, n, "reuse after move"); z.clear(); eq(z, RP(), n, "clear"); z.swap(y); eq(z, a, n, "swap"); eq(y, RP(), n, "swap 2");
    }
    P mkp(const vector<std::pair<basic_monomial<comp>, Tc>>& v) { P r(c); r.data() = v; return r; }
};
template <class Tc, class comp> void add_ring(const string& name, const comp* c, int n, uint64_t mod, vector<RP> A, vector<RP> B) {
    auto r = make_shared<Ring<Tc, comp>>(); r->name = name; r->c = c; r->n = n; r->mod = mod; r->A = A; r->B = B; r->fill();
    vh::scope(name + ".single", r->A.size(), [r](uint64_t i) { r->single(i); }, [r](uint64_t i) { MOD = r->mod; return r->A[i].str(); });
    vh::scope(name + ".pairs", r->A.size() * r->B.size(), [r](uint64_t i) { r->pair(i / r->B.size(), i % r->B.size()); }, [r](uint64_t i) { return r->A[i / r->B.size()].str() + " , " + r->B[i % r->B.size()].str(); });
}
// products that straddle the packed-exponent limits: nv variables, exponents around field widths
template <class Tc, class comp> void thresholds(const string& name, const comp* c, uint64_t mod) {
    struct Cs { int nv; int64_t a, b; int pa, pb, shape; };
    auto cs = make_shared<vector<Cs>>();
    vector<int> nvs; for (int i = 1; i <= 10; ++i) nvs.push_back(i); for (int i : {11, 12, 15, 16, 17, 20, 21, 22, 31, 32, 33, 40, 62, 63, 64, 65}) nvs.push_back(i);
    if (vh::thorough) { nvs.clear(); for (int i = 1; i <= 66; ++i) nvs.push_back(i); }
    for (int nv : nvs) {
        std::set<int64_t> ex{1, 2};
        for (int div : {nv, nv + 1}) { int w = 64 / div; for (int k : {w - 2, w - 1, w, w + 1}) if (k >= 1 && k <= 40) for (int64_t d : {-1, 0, 1}) { int64_t e = (int64_t(1) << k) + d; if (e >= 1) ex.insert(e); } }
        std::set<int> pos{0, nv - 1, nv / 2};
        for (auto a : ex) for (auto b : ex) for (int pa : pos) for (int pb : pos) for (int s = 0; s < 3; ++s) cs->push_back({nv, a, b, pa, pb, s});
    }
    auto build = [](const Cs& k, RP& f, RP& g) {
        int n = k.nv; Mon all(n, 1);
        f = RP::x(k.pa, n, k.a); g = RP::x(k.pb, n, k.b);
        if (k.shape == 0) { f = f + RP::x(n - 1, n, 1) * RQ(2) + RP::c(3, n); for (int i = 0; i < n; ++i) g = g + RP::x(i, n, 1) * RQ(i + 2); }
        else if (k.shape == 1) { RP m; m.t[all] = 1; f = f + m; g = g + RP::c(-1, n) + RP::x(0, n, 1) * RQ(5); }
        else { Mon m(n, 0); m[k.pa] = k.a - 1; m[n - 1 - k.pb] += 1; f.add(m, -1); for (int i = 0; i < n; ++i) f = f + RP::x(i, n, 1) * RQ(7 + i); Mon w(n, 0); w[k.pb] = k.b; w[0] += 1; g.add(w, 2); g = g + RP::c(1, n); }
    };
    vh::scope(name + ".packed", cs->size(), [=](uint64_t i) {
        MOD = mod; RP f, g; auto& k = (*cs)[i]; build(k, f, g); f = f.red(); g = g.red();
        auto F = lib<Tc, comp>(f, c), G = lib<Tc, comp>(g, c); RP m = f * g;
        Ring<Tc, comp>::eq(F * G, m, k.nv, "f*g"); Ring<Tc, comp>::eq(G * F, m, k.nv, "g*f");
        vh::state(vh::mix(i) ^ vh::hstr(name));
    }, [=](uint64_t i) { MOD = mod; RP f, g; build((*cs)[i], f, g); return to_string((*cs)[i].nv) + " variables: (" + f.str().substr(0, 200) + ") * (" + g.str().substr(0, 200) + ")"; });
}
template <class Tc> void add_u(const string& name, uint64_t mod, vector<RP> A, vector<RP> B) {
    MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red();
    auto a = make_shared<vector<RP>>(uniq(A)), b = make_shared<vector<RP>>(uniq(B)); auto la = make_shared<vector<upolynomial_<Tc>>>(), lb = make_shared<vector<upolynomial_<Tc>>>();
    for (auto& x : *a) la->push_back(ulib<Tc>(x)); for (auto& x : *b) lb->push_back(ulib<Tc>(x));
    auto eq = [](const upolynomial_<Tc>& p, const RP& r, const char* w) { vh::step(); RP g = from(p, w); if (g != r) vh::fail(string(w) + ": got " + g.str() + " expected " + r.str()); };
    vh::scope(name + ".pairs", a->size() * b->size(), [=](uint64_t k) {
        MOD = mod; size_t i = k / b->size(), j = k % b->size(); auto& f = (*la)[i]; auto& g = (*lb)[j]; auto &x = (*a)[i], &y = (*b)[j];
        eq(f + g, x + y, "f+g"); eq(f - g, x - y, "f-g"); RP m = x * y; eq(f * g, m, "f*g"); eq(g * f, m, "g*f"); CHECK((f == g) == (x == y), "=="); vh::state(vh::mix(k) ^ vh::hstr(name));
        if (j == 0) { eq(-f, -x, "-f"); RP p = RP::c(1, 1); for (int e = 0; e <= 5; ++e) { if (!(e == 0 && x.zero() && mod)) eq(pow(f, e), p.red(), "pow"); p = p * x; }
            for (RQ q : {RQ(0), RQ(1), RQ(-3), RQ(2), RQ(RZ("100000000000000000000"))}) { Tc c = clib<Tc>(q); eq(f * c, x * q, "f*scalar"); } }
    }, [=](uint64_t k) { return (*a)[k / b->size()].str() + " , " + (*b)[k % b->size()].str(); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(66);
        bool T = vh::thorough; RQ big(RZ("9223372036854775807")), bigger(RZ("123456789012345678901234567890"));
        auto M2 = monos_box({2, 2}), M3 = monos_box({1, 1, 1}), U = monos_box({5});
        auto D2 = dense(monos_deg(2, 2), ints(-1, 1));                      // 729: heap collisions and cancellations
        vector<RQ> zc{-1, 1, 2}, zb{-1, 3, big, -big - 1, bigger}, qc{RQ(-1), RQ(1, 2), RQ(-2, 3), RQ(2)};
        static grlex g0; static lex l0;
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})), lc2(custom_var_order({X[1]})); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]}));
        static univariate_priority_order up0(X[0]), up1(X[1]), up2(X[2]);
        auto S2 = sparse(M2, zc, T ? 3 : 2), S3 = sparse(M3, {RQ(-1), RQ(2)}, 3), S3b = sparse(M3, {RQ(-1), RQ(2)}, 2);
        add_ring<ZZ, grlex>("ZZ.grlex.2v", &grlex::init, 2, 0, T ? D2 : S2, T ? D2 : S2);
        add_ring<ZZ, grlex>("ZZ.grlex.dense", &grlex::init, 2, 0, D2, T ? S2 : sparse(monos_deg(2, 2), {RQ(-1), RQ(1)}, 3));
        add_ring<ZZ, grlex>("ZZ.grlex.big", &grlex::init, 2, 0, sparse(monos_deg(2, 1), zb, 3), sparse(monos_deg(2, 1), zb, T ? 3 : 2));
        add_ring<ZZ, lex>("ZZ.lex.3v", &lex::init, 3, 0, S3, T ? S3 : S3b);
        add_ring<ZZ, lex_<custom_var_order>>("ZZ.lexc.3v", &lc, 3, 0, S3, T ? S3 : S3b);
        add_ring<ZZ, lex_<custom_var_order>>("ZZ.lexc2.3v", &lc2, 3, 0, S3b, S3b);
        add_ring<ZZ, grlex_<custom_var_order>>("ZZ.grlexc.3v", &gc, 3, 0, S3, T ? S3 : S3b);
        add_ring<ZZ, univariate_priority_order>("ZZ.up0.3v", &up0, 3, 0, S3b, S3b);
        add_ring<ZZ, univariate_priority_order>("ZZ.up1.3v", &up1, 3, 0, S3, S3b);
        add_ring<ZZ, univariate_priority_order>("ZZ.up2.3v", &up2, 3, 0, S3b, S3b);
        add_ring<QQ, grlex>("QQ.grlex.2v", &grlex::init, 2, 0, sparse(monos_deg(2, 2), qc, 2), sparse(monos_deg(2, 2), qc, 2));
        add_ring<QQ, lex>("QQ.lex.2v", &lex::init, 2, 0, sparse(monos_box({1, 1}), qc, 3), sparse(monos_box({1, 1}), qc, 3));
        for (uint64_t p : {2ull, 3ull, 5ull, 18446744073709551557ull}) {
            add_ring<Zp, grlex>("Zp" + to_string(p) + ".grlex.2v", &grlex::init, 2, p, p < 5 ? dense(monos_deg(2, 2), p == 2 ? ints(0, 1) : T ? ints(0, 2) : ints(0, 1)) : sparse(monos_deg(2, 2), {RQ(1), RQ(2), RQ(-1)}, 2), sparse(monos_deg(2, 2), {RQ(1), RQ(-1)}, 2));
            add_ring<Zp, univariate_priority_order>("Zp" + to_string(p) + ".up1.3v", &up1, 3, p, S3b, S3b);
        }
        add_u<ZZ>("ZZ.u", 0, dense(U, ints(-1, 1)), T ? dense(U, ints(-1, 1)) : dense(monos_box({4}), ints(-1, 1)));
        add_u<QQ>("QQ.u", 0, dense(monos_box({3}), {RQ(0), RQ(1, 2), RQ(-1, 2), RQ(3)}), dense(monos_box({3}), {RQ(0), RQ(1, 2), RQ(-1)}));
        for (uint64_t p : {2ull, 3ull, 7ull}) add_u<Zp>("Zp" + to_string(p) + ".u", p, dense(monos_box({p == 2 ? 7 : 5}), p == 2 ? ints(0, 1) : ints(0, 2)), dense(monos_box({4}), p == 2 ? ints(0, 1) : ints(0, 2)));
        thresholds<ZZ, grlex>("ZZ.grlex", &grlex::init, 0); thresholds<ZZ, lex>("ZZ.lex", &lex::init, 0);
        thresholds<Zp, univariate_priority_order>("Zp.up1", &up1, 101); thresholds<ZZ, grlex_<custom_var_order>>("ZZ.grlexc", &gc, 0);
        // scalars and monomials on default-order polynomials
        static auto SP = sparse(monos_deg(2, 2), {RQ(-1), RQ(2)}, 3); static auto MS = monos_deg(2, 3); MOD = 0;
        vh::scope("ZZ.scalar", SP.size(), [](uint64_t i) {
            MOD = 0; const RP& a = SP[i]; auto f = lib<ZZ>(a); auto eq = [](const polynomial_ZZ& p, const RP& r, const char* w) { vh::step(); RP g = from(p, 2, w); if (g != r) vh::fail(string(w) + ": got " + g.str() + " expected " + r.str()); };
            for (int k : {-2, -1, 0, 1, 2, 5}) { RP c = RP::c(k, 2); ZZ z(k); int64_t q = k;
                eq(f + z, a + c, "f+z"); eq(z + f, a + c, "z+f"); eq(f - z, a - c, "f-z"); eq(z - f, c - a, "z-f"); eq(f + q, a + c, "f+int"); eq(q + f, a + c, "int+f"); eq(f - q, a - c, "f-int"); eq(q - f, c - a, "int-f"); }
            for (auto& m : MS) { RP c; c.t[m] = 1; auto x = mono(m, &grlex::init); eq(f + x, a + c, "f+m"); eq(x + f, a + c, "m+f"); eq(f - x, a - c, "f-m"); eq(x - f, c - a, "m-f"); }
        }, [](uint64_t i) { return SP[i].str(); });
        vh::scope("ZZ.mono", MS.size() * MS.size(), [](uint64_t i) {
            MOD = 0; RP a, b; a.t[MS[i / MS.size()]] = 1; b.t[MS[i % MS.size()]] = 1; auto x = mono(MS[i / MS.size()], &grlex::init), y = mono(MS[i % MS.size()], &grlex::init);
            auto eq = [](const polynomial_ZZ& p, const RP& r, const char* w) { vh::step(); RP g = from(p, 2, w); if (g != r) vh::fail(string(w) + ": got " + g.str() + " expected " + r.str()); };
            eq(x + y, a + b, "m+m"); eq(x - y, a - b, "m-m"); eq(-x, -a, "-m");
            for (int64_t k : {-2, 0, 1, 3}) { RP c = RP::c(k, 2); eq(x + k, a + c, "m+int"); eq(x - k, a - c, "m-int"); eq(k + x, a + c, "int+m"); eq(k - x, c - a, "int-m"); eq(x * k, a * RQ(k), "m*int"); eq(k * x, a * RQ(k), "int*m"); eq(x * ZZ(k), a * RQ(k), "m*ZZ"); }
        });
    });
}
