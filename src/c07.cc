// C07: polynomial division with remainder and exact division.
#include "poly.hh"
using namespace rp; using namespace std;
static bool field = false;
// reference: lead-term division in the given order; integer rings use the floor convention per coefficient
static void refdiv(const RP& f, const RP& g, const Ord& o, RP& q, RP& r) {
    auto lt = [&](const RP& p) { auto b = p.t.begin(); for (auto i = p.t.begin(); i != p.t.end(); ++i) if (o.gt(i->first, b->first)) b = i; return b; };
    RP h = f; auto lg = lt(g); q = RP(); r = RP();
    while (!h.zero()) {
        auto l = lt(h); Mon m = l->first; RQ k = l->second; bool ok = true; Mon d = m;
        for (size_t i = 0; i < m.size(); ++i) { d[i] -= lg->first[i]; if (d[i] < 0) ok = false; }
        if (ok) {
            RQ c = norm(RQ(k / lg->second)); if (MOD) { RP one = RP::c(lg->second, 1); RZ inv, p; mpz_set_ui(p.get_mpz_t(), MOD); mpz_invert(inv.get_mpz_t(), lg->second.get_num_mpz_t(), p.get_mpz_t()); c = norm(RQ(RZ(k.get_num() * inv))); }
            else if (!field) c = RQ(ref::fdiv_q(k.get_num(), lg->second.get_num()));
            if (c != 0) { q.add(d, c); RP s; s.t[d] = c; h = h - s * g; }
            auto it = h.t.find(m); if (it != h.t.end()) { r.t[m] = it->second; h.t.erase(it); }
        } else { r.t[m] = k; h.t.erase(m); }
    }
}
static string ds(const RP& f, const RP& g) { return "(" + f.str().substr(0, 300) + ") / (" + g.str().substr(0, 300) + ")"; }
template <class Tc, class comp> struct Div {
    string name; const comp* c; int n; uint64_t mod; vector<RP> A, B; vector<polynomial_<Tc, comp>> LA, LB; typedef polynomial_<Tc, comp> P; static constexpr bool REM = !is_same_v<Tc, QQ>;
    static void check(const P& F, const P& G, const RP& f, const RP& g, int n, bool exact_too) {
        field = is_same_v<Tc, QQ>;
        P Q(F.comp_ptr()), R(F.comp_ptr()), Q2(F.comp_ptr());
        if (g.zero()) {
            bool t = false; if constexpr (REM) { try { polynomial_div(Q, R, F, G); } catch (std::invalid_argument&) { t = true; } CHECK(t, "division by zero did not throw"); }
            t = false; try { Q = F / G; } catch (std::invalid_argument&) { t = true; } CHECK(t, "division by zero did not throw"); return;
        }
        RP q, r; refdiv(f, g, ord_of(F.comp()), q, r);
        vh::step(4);
        if constexpr (REM) { polynomial_div(Q, R, F, G); RP lq = from(Q, n, "quotient"), lr = from(R, n, "remainder");
        CHECK(lq * g + lr == f, ds(f, g) << ": quotient " << lq << " and remainder " << lr << " do not recombine to the dividend");
        CHECK(lq == q && lr == r, ds(f, g) << ": got quotient " << lq << " remainder " << lr << ", expected " << q << " and " << r); }
        P S = F / G; CHECK(from(S, n, "f/g") == q, ds(f, g) << ": f/g gives " << from(S, n) << ", expected " << q);
        polynomial_div(Q2, F, G); CHECK(from(Q2, n, "quotient only") == q, ds(f, g) << ": quotient-only form gives " << from(Q2, n) << ", expected " << q);
        P a = F, b = G; if constexpr (REM) { P X1 = polynomial_rem(F, G); 
        { RP x = from(X1, n, "rem"); CHECK(x == r, ds(f, g) << ": remainder form gives " << x << ", expected " << r); }
        polynomial_div(a, R, a, b); CHECK(from(a, n, "aliased quotient") == q && from(R, n) == r, ds(f, g) << ": dividend aliased with quotient"); a = F; polynomial_div(Q, a, a, b); CHECK(from(Q, n) == q && from(a, n, "aliased remainder") == r, ds(f, g) << ": dividend aliased with remainder");
        a = F; polynomial_div(Q, b, a, b); CHECK(from(Q, n) == q && from(b, n, "aliased divisor") == r, ds(f, g) << ": divisor aliased with remainder"); }
        a = F; polynomial_div(a, a, G); CHECK(from(a, n, "aliased quotient") == q, ds(f, g) << ": dividend aliased with quotient (no remainder)"); b = G; polynomial_div(b, F, b); CHECK(from(b, n, "aliased quotient") == q, ds(f, g) << ": divisor aliased with quotient (no remainder)"); a = F; if (!f.zero()) { a = a / a; CHECK(from(a, n) == RP::c(1, n), "f/f"); }
        if (exact_too) { P M = F * G; P E = M / G; CHECK(from(E, n, "(f*g)/g") == f, ds(f, g) << ": (f*g)/g gives " << from(E, n)); if constexpr (REM) { polynomial_div(Q, R, M, G); CHECK(from(Q, n) == f && R.empty(), ds(f, g) << ": dividing f*g by g gives remainder " << from(R, n)); } vh::step(2); }
    }
    void reg(const shared_ptr<Div>& me) {
        MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red(); A = uniq(A); B = uniq(B); for (auto& a : A) LA.push_back(lib<Tc, comp>(a, c)); for (auto& b : B) LB.push_back(lib<Tc, comp>(b, c));
        vh::scope(name, A.size() * B.size(), [me](uint64_t k) { MOD = me->mod; size_t i = k / me->B.size(), j = k % me->B.size(); check(me->LA[i], me->LB[j], me->A[i], me->B[j], me->n, true); vh::state(vh::mix(k) ^ vh::hstr(me->name)); },
            [me](uint64_t k) { return ds(me->A[k / me->B.size()], me->B[k % me->B.size()]); });
    }
};
template <class Tc, class comp> void add(const string& name, const comp* c, int n, uint64_t mod, vector<RP> A, vector<RP> B) { auto d = make_shared<Div<Tc, comp>>(); d->name = name; d->c = c; d->n = n; d->mod = mod; d->A = A; d->B = B; d->reg(d); }
template <class Tc, class comp> void thresholds(const string& name, const comp* c, uint64_t mod) {
    struct Cs { int nv; int64_t a, b; int pa, pb, k, shape; }; auto cs = make_shared<vector<Cs>>();
    vector<int> nvs{1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 20, 21, 31, 32, 33, 62, 63, 64, 65}; if (vh::thorough) { nvs.clear(); for (int i = 1; i <= 66; ++i) nvs.push_back(i); }
    for (int nv : nvs) {
        std::set<int64_t> ex{1, 2, 3}; for (int div : {nv, nv + 1}) { int w = 64 / div; for (int k : {w - 2, w - 1, w}) if (k >= 1 && k <= 32) for (int64_t d : {-1, 0, 1}) { int64_t e = (int64_t(1) << k) + d; if (e >= 1) ex.insert(e); } }
        std::set<int> pos{0, nv - 1}; if (vh::thorough) pos.insert(nv / 2);
        for (auto a : ex) for (auto b : ex) for (int pa : pos) for (int pb : pos) for (int k = 1; k <= 3; ++k) { if (pa == pb && std::llabs(a - b) * 64 < std::max(a, b) * k) continue; /* quotient would have > 64 terms */ for (int s = 0; s < 3; ++s) cs->push_back({nv, a, b, pa, pb, k, s}); }
    }
    auto build = [](const Cs& k, RP& f, RP& g) {
        int n = k.nv; g = RP::x(k.pa, n, k.a) - RP::x(k.pb, n, k.b) * RQ(2); if (g.zero() || k.pa == k.pb) g = g + RP::c(3, n);
        f = RP::x(k.pa, n, k.a * k.k) + RP::x(n - 1, n, 1) + RP::c(5, n);
        if (k.shape == 0) for (int i = 0; i < n; ++i) f = f + RP::x(i, n, 1) * RQ(i + 2);
        else if (k.shape == 1) { Mon m(n, 1); m[k.pa] = k.a * k.k; f.add(m, 1); }
        else { RP h = RP::c(1, n); for (int i = 0; i < n; i += 1 + n / 4) h = h + RP::x(i, n, 1); f = g * h; }
    };
    vh::scope(name + ".packed", cs->size(), [=](uint64_t i) { MOD = mod; RP f, g; auto& k = (*cs)[i]; build(k, f, g); f = f.red(); g = g.red(); if (g.zero()) return; Div<Tc, comp>::check(lib<Tc, comp>(f, c), lib<Tc, comp>(g, c), f, g, k.nv, false); vh::state(vh::mix(i) ^ vh::hstr(name + "p")); },
        [=](uint64_t i) { MOD = mod; RP f, g; build((*cs)[i], f, g); return to_string((*cs)[i].nv) + " variables: " + ds(f, g); });
}
template <class Tc> void addu(const string& name, uint64_t mod, vector<RP> A, vector<RP> B) {
    MOD = mod; for (auto& a : A) a = a.red(); for (auto& a : B) a = a.red(); auto a = make_shared<vector<RP>>(uniq(A)), b = make_shared<vector<RP>>(uniq(B));
    vh::scope(name, a->size() * b->size(), [=](uint64_t k) {
        MOD = mod; field = is_same_v<Tc, QQ>; const RP &f = (*a)[k / b->size()], &g = (*b)[k % b->size()]; auto F = ulib<Tc>(f), G = ulib<Tc>(g); upolynomial_<Tc> Q, R;
        constexpr bool REM = !is_same_v<Tc, QQ>; if (g.zero()) { bool t = false; try { polynomial_div(Q, F, G); } catch (std::invalid_argument&) { t = true; } CHECK(t, "division by zero did not throw"); return; }
        RP q, r; refdiv(f, g, Ord{false, {0}}, q, r); vh::step(3); if constexpr (REM) { polynomial_div(Q, R, F, G); RP lq = from(Q), lr = from(R);
        CHECK(lq == q && lr == r, ds(f, g) << ": got quotient " << lq << " remainder " << lr << ", expected " << q << " and " << r);
        auto Y = F; polynomial_div(Y, R, Y, G); CHECK(from(Y) == q && from(R) == r, ds(f, g) << ": aliased"); }
        CHECK(from(F / G) == q, ds(f, g) << ": f/g gives " << from(F / G)); auto M = F * G; CHECK(from(M / G) == f, ds(f, g) << ": (f*g)/g gives " << from(M / G)); vh::state(vh::mix(k) ^ vh::hstr(name));
    }, [=](uint64_t k) { return ds((*a)[k / b->size()], (*b)[k % b->size()]); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(66); bool T = vh::thorough; RQ bigger(RZ("123456789012345678901234567890"));
        vector<RQ> zc{-1, 1, 2, 3}, qc{RQ(-1), RQ(1, 2), RQ(3)};
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]})); static univariate_priority_order up1(X[1]);
        auto S2 = sparse(monos_box({2, 2}), zc, 2), D2 = dense(monos_deg(2, 2), ints(-1, 1)), B2 = sparse(monos_deg(2, 2), {RQ(-1), RQ(2), RQ(3)}, T ? 3 : 2), S3 = sparse(monos_box({2, 1, 1}), {RQ(-1), RQ(2)}, T ? 3 : 2), B3 = sparse(monos_box({1, 1, 1}), {RQ(-1), RQ(2)}, T ? 3 : 2);
        add<ZZ, grlex>("ZZ.grlex.2v", &grlex::init, 2, 0, S2, B2); add<ZZ, grlex>("ZZ.grlex.dense", &grlex::init, 2, 0, D2, B2); add<ZZ, lex>("ZZ.lex.2v", &lex::init, 2, 0, S2, B2);
        add<ZZ, grlex>("ZZ.grlex.dd", &grlex::init, 2, 0, dense(monos_box({3, 1}), T ? ints(-1, 1) : ints(0, 1)), dense(monos_deg(2, 1), ints(-2, 2)));
        add<ZZ, grlex>("ZZ.grlex.big", &grlex::init, 2, 0, sparse(monos_deg(2, 2), {RQ(3), RQ(7), bigger, -bigger}, 2), sparse(monos_deg(2, 1), {RQ(-2), RQ(10), bigger / 10}, 3));
        add<ZZ, lex_<custom_var_order>>("ZZ.lexc.3v", &lc, 3, 0, S3, B3); add<ZZ, grlex_<custom_var_order>>("ZZ.grlexc.3v", &gc, 3, 0, S3, B3); add<ZZ, univariate_priority_order>("ZZ.up1.3v", &up1, 3, 0, S3, B3);
        add<QQ, grlex>("QQ.grlex.2v", &grlex::init, 2, 0, sparse(monos_deg(2, 2), qc, 3), sparse(monos_deg(2, 2), qc, 2)); add<QQ, lex>("QQ.lex.2v", &lex::init, 2, 0, sparse(monos_box({2, 1}), qc, 3), sparse(monos_deg(2, 2), qc, 2));
        for (uint64_t p : {2ull, 3ull, 18446744073709551557ull}) { add<Zp, grlex>("Zp" + to_string(p) + ".grlex.2v", &grlex::init, 2, p, dense(monos_deg(2, 2), p == 3 && !T ? vector<RQ>{0, 2} : p == 2 ? ints(0, 1) : ints(0, 2)), sparse(monos_deg(2, 2), {RQ(1), RQ(2)}, 3)); add<Zp, univariate_priority_order>("Zp" + to_string(p) + ".up1.3v", &up1, 3, p, S3, B3); }
        addu<ZZ>("ZZ.u", 0, dense(monos_box({4}), ints(-2, 2)), dense(monos_box({2}), ints(-2, 3))); addu<QQ>("QQ.u", 0, dense(monos_box({4}), {RQ(0), RQ(1, 2), RQ(3)}), dense(monos_box({2}), {RQ(0), RQ(1), RQ(-1, 2), RQ(2, 3)}));
        for (uint64_t p : {2ull, 3ull, 5ull}) addu<Zp>("Zp" + to_string(p) + ".u", p, dense(monos_box({p == 2 ? 8 : p == 3 ? 5 : 4}), ints(0, p - 1)), dense(monos_box({p == 2 ? 4 : 2}), ints(0, p - 1)));
        thresholds<ZZ, grlex>("ZZ.grlex", &grlex::init, 0); thresholds<ZZ, lex>("ZZ.lex", &lex::init, 0); thresholds<Zp, univariate_priority_order>("Zp.up1", &up1, 101); thresholds<ZZ, grlex_<custom_var_order>>("ZZ.grlexc", &gc, 0);
        // integer polynomials divided into rational quotients
        static auto QA = dense(monos_deg(2, 2), ints(-1, 1)), QB = sparse(monos_deg(2, 2), {RQ(2), RQ(-3)}, 2); MOD = 0;
        vh::scope("ZZ->QQ", QA.size() * QB.size(), [](uint64_t k) { MOD = 0; field = true; const RP &f = QA[k / QB.size()], &g = QB[k % QB.size()]; if (g.zero()) return; polynomial_QQ Q; RP q, r; refdiv(f, g, ord_of(grlex::init), q, r); vh::step();
            polynomial_div(Q, lib<ZZ>(f), lib<ZZ>(g)); CHECK(from(Q, 2) == q, ds(f, g) << ": quotient only"); },
            [](uint64_t k) { return ds(QA[k / QB.size()], QB[k % QB.size()]); });
    });
}
