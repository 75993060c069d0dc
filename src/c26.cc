// C26: the stages of integer factorisation deliver what the next stage relies on, whichever prime,
// precision or evaluation point was chosen.
#include "zfactor.hh"
using namespace rp; using namespace std; typedef vector<RP> Fs;
static string show(const Fs& f) { string s; for (auto& x : f) s += "[" + x.str() + "] "; return s; }
static RP prod(const Fs& f, int n) { RP a = RP::c(1, n); for (auto& x : f) a = a * x; return a; }
static RP pos(const RP& a) { return a.zero() || a.t.rbegin()->second > 0 ? a : -a; }
static RP mod(const RP& a, const RZ& m) { RP r; for (auto& [k, q] : a.t) { RZ t; mpz_fdiv_r(t.get_mpz_t(), q.get_num_mpz_t(), m.get_mpz_t()); if (t != 0) r.t[k] = RQ(t); } return r; }
static RZ maxc(const RP& a) { RZ m = 0; for (auto& [k, q] : a.t) { RZ t = abs(q.get_num()); if (t > m) m = t; } return m; }
static Fs norm1(Fs F) { for (auto& f : F) f = pos(f); sort(F.begin(), F.end()); return F; }
static Fs zlift(const vector<upolynomial_<ZZ>>& v, const char* w) { Fs r; for (auto& f : v) r.push_back(from(f, w)); return r; }
static const uint64_t PR[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 31, 101, 65537, 2147483647ull, 4294967311ull, 18446744073709551557ull};
// every multiset of distinct catalogue entries within a size and degree bound
static vector<Fs> subsets(const Fs& I, int lo, int hi, int deg) { vector<Fs> out; function<void(size_t, Fs, int)> rec = [&](size_t i, Fs f, int d) { if (i == I.size()) { if ((int)f.size() >= lo) out.push_back(f); return; } rec(i + 1, f, d); if ((int)f.size() < hi && I[i].deg(0) <= d) { auto g = f; g.push_back(I[i]); rec(i + 1, g, d - I[i].deg(0)); } }; rec(0, {}, deg); return out; }
// the largest coefficient a recombined factor can have before normalisation: lc(f)/lc(g) * g over all divisors g
static RZ need(const Fs& f) { RZ b = 0; RP all = prod(f, 1); for (uint64_t m = 0; m < (1ull << f.size()); ++m) { RP g = RP::c(1, 1); for (size_t i = 0; i < f.size(); ++i) if (m >> i & 1) g = g * f[i]; RZ c = abs(all.lc(0).cst().get_num() / g.lc(0).cst().get_num()) * maxc(g); if (c > b) b = c; } return b; }
struct Img { bool ok = false; vector<upolynomial_<Zp>> F; };
static Img image(const upolynomial_<ZZ>& f, const RP& a, uint64_t p) {
    Img r; if (mpz_divisible_ui_p(a.lc(0).cst().get_num_mpz_t(), p)) return r; auto fp = polynomial_mod(f, p); auto [c, G] = __factor_Zp(fp); for (auto& [g, e] : G) { if (e > 1) return r; r.F.push_back(g); } r.ok = true; return r;
}
static void univ(const Fs& f, uint64_t p, int scope) {
    MOD = 0; vrand::reset(0); RP a = prod(f, 1); auto fl = ulib<ZZ>(a); auto im = image(fl, a, p); if (!im.ok || im.F.size() < 2) { vh::outcome("skip"); return; } RZ P; mpz_set_ui(P.get_mpz_t(), p); RZ nd = need(f); Fs K = norm1(f);
    auto lifted = [&](int at) { vh::step(); auto [L, m0] = __hensel_lift(fl, im.F, p, at); RZ m = zref(m0), q = m; Fs R = zlift(L, "lifted factor"); int e = 0; while (q > 1 && mpz_divisible_p(q.get_mpz_t(), P.get_mpz_t())) { q /= P; ++e; } CHECK(q == 1 && e >= max(at, 1), "lift target " << at << ": modulus " << m << " is not a sufficient power of " << p); if (!at) CHECK(m > 2 * nd, "modulus " << m << " is too small: a recombined factor can have coefficient " << nd);
        CHECK(R.size() == im.F.size(), R.size() << " lifted factors from " << im.F.size()); vector<RP> A, B; RP pr = RP::c(a.lc(0).cst(), 1); for (size_t i = 0; i < R.size(); ++i) { CHECK(!R[i].zero() && R[i].lc(0).cst() == 1, "lifted factor " << R[i] << " is not monic"); pr = mod(pr * R[i], m); A.push_back(mod(R[i], P)); MOD = p; B.push_back(from(im.F[i], "modular factor")); MOD = 0; } CHECK(pr == mod(a, m), "lc * product of the lifted factors differs from " << a << " modulo " << m); sort(A.begin(), A.end()); sort(B.begin(), B.end()); CHECK(A == B, "lifted factors reduce to " << show(A) << " instead of " << show(B) << " mod " << p); CHECK(from(fl, "operand") == a, "operand changed"); return make_pair(L, m0); };
    auto same = [&](const char* api, const vector<upolynomial_<ZZ>>& G) { vh::step(); Fs R = norm1(zlift(G, api)); CHECK(R == K, api << " with prime " << p << " gives " << show(R) << " instead of " << show(K)); };
    vh::outcome(to_string(im.F.size()) + "/" + to_string(f.size()));
    { RZ B = zref(__mignotte_bound(fl)); for (uint64_t m = 0; m < (1ull << f.size()); ++m) { RP g = RP::c(1, 1); for (size_t i = 0; i < f.size(); ++i) if (m >> i & 1) g = g * f[i]; CHECK(maxc(g) <= B, "coefficient bound " << B << " of " << a << " is exceeded by its divisor " << g); } }
    if (scope == 0) { for (int at : {1, 2, 3, 5}) lifted(at); lifted(0); }
    else { auto [L, m] = lifted(0); if (L.size() <= 12) same("__zassenhaus_recombine", __zassenhaus_recombine(fl, L, m)); same("__vanhoeij_recombine", __vanhoeij_recombine(fl, L, m)); same("__factor_recombine", __factor_recombine(fl, L, m)); same("__lll_factorize", __lll_factorize(fl, im.F, p)); if (a.deg(0) >= 2) { bool old = __g_use_large_prime; for (bool b : {false, true}) { __g_use_large_prime = b; same(b ? "large-prime factorisation" : "small-prime factorisation", __factor_squarefree_primitive_ZZ(fl)); } __g_use_large_prime = old; } auto S = __select_prime(fl, false); if (!S.irreducible) { CHECK(ref::is_prime_trial(S.prime) && !mpz_divisible_ui_p(a.lc(0).cst().get_num_mpz_t(), S.prime), "chosen prime " << S.prime); MOD = S.prime; RP pr = RP::c(RQ(a.lc(0).cst()), 1); pr = pr.red(); for (auto& g : S.factors) pr = pr * from(g, "modular factor"); CHECK(pr == a.red(), "factors of the chosen prime " << S.prime << " do not multiply to " << a); MOD = 0; } else CHECK(f.size() == 1, "reducible polynomial declared irreducible"); }
}
static void uscope(const string& name, vector<Fs> S0, int kind) { auto S = make_shared<vector<Fs>>(S0); const uint64_t np = sizeof PR / sizeof *PR; for (auto& f : S0) for (auto& g : f) if (!zf::irr(g, 1)) { fprintf(stderr, "reducible catalogue entry %s\n", g.str().c_str()); abort(); } vh::scope(name, S->size() * np, [=](uint64_t i) { univ((*S)[i / np], PR[i % np], kind); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i / np]) + "mod " + to_string(PR[i % np]); }); }
// --- lattice reduction
static RQ dotq(const vector<RQ>& a, const vector<RQ>& b) { RQ s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static RZ det(vector<vector<RZ>> a) { size_t n = a.size(); if (n == 1) return a[0][0]; RZ s = 0; for (size_t j = 0; j < n; ++j) { if (a[0][j] == 0) continue; vector<vector<RZ>> b; for (size_t i = 1; i < n; ++i) { vector<RZ> r; for (size_t k = 0; k < n; ++k) if (k != j) r.push_back(a[i][k]); b.push_back(r); } s += (j % 2 ? -1 : 1) * a[0][j] * det(b); } return s; }
static void lll(const vector<vector<RZ>>& A, const vector<RZ>& Bs) {
    if (det(A) == 0) return; size_t n = A.size(); for (auto& B : Bs) {
        vh::step(); LLLMatrix M, U; for (auto& r : A) { M.emplace_back(); for (auto& x : r) M.back().push_back(zlib(x)); } auto rows = __lll_reduce(M, U, zlib(B)); CHECK(M.size() == n && U.size() == n, "matrix shape changed"); vector<vector<RZ>> m(n), u(n); for (size_t i = 0; i < n; ++i) { CHECK(M[i].size() == n && U[i].size() == n, "matrix shape changed"); for (size_t j = 0; j < n; ++j) { m[i].push_back(zref(M[i][j])); u[i].push_back(zref(U[i][j])); } }
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { RZ s = 0; for (size_t k = 0; k < n; ++k) s += u[i][k] * A[k][j]; CHECK(s == m[i][j], "reduced basis is not U times the input basis"); } CHECK(abs(det(u)) == 1, "transformation has determinant " << det(u));
        vector<vector<RQ>> b(n), g; for (size_t i = 0; i < n; ++i) for (auto& x : m[i]) b[i].push_back(RQ(x)); vector<RQ> nn; vector<vector<RQ>> mu(n, vector<RQ>(n)); for (size_t i = 0; i < n; ++i) { auto v = b[i]; for (size_t j = 0; j < i; ++j) { mu[i][j] = dotq(b[i], g[j]) / nn[j]; for (size_t k = 0; k < n; ++k) v[k] -= mu[i][j] * g[j][k]; } g.push_back(v); nn.push_back(dotq(v, v)); }
        for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < i; ++j) CHECK(abs(mu[i][j]) <= RQ(1, 2), "row " << i << " is not size-reduced against row " << j << ": " << mu[i][j]); if (i) CHECK(nn[i] >= (RQ(3, 4) - mu[i][i - 1] * mu[i][i - 1]) * nn[i - 1], "Lovasz condition fails at row " << i); }
        vector<int> want; for (size_t i = 0; i < n; ++i) if (dotq(b[i], b[i]) <= RQ(B)) want.push_back(i); vector<int> got(rows.begin(), rows.end()); sort(got.begin(), got.end()); CHECK(got == want, got.size() << " short rows reported, " << want.size() << " present for bound " << B);
    }
}
static string mats(const vector<vector<RZ>>& A) { string s; for (auto& r : A) { s += "("; for (auto& x : r) s += x.get_str() + " "; s += ")"; } return s; }
static void lscope(const string& name, uint64_t cnt, function<vector<vector<RZ>>(uint64_t)> at, vector<RZ> Bs) { vh::scope(name, cnt, [=](uint64_t i) { MOD = 0; lll(at(i), Bs); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return mats(at(i)); }); }
// --- Diophantine equations sum sigma_i * prod_{l != i} F_l = c modulo p
static RP rhs(const Fs& F, const Fs& s, int n) { RP c; for (size_t i = 0; i < F.size(); ++i) { RP t = s[i]; for (size_t l = 0; l < F.size(); ++l) if (l != i) t = t * F[l]; c = c + t; } return c; }
static bool coprime_at(const Fs& F, const vector<RQ>& al, int n) { vector<Vec> v; for (auto f : F) { for (int k = 1; k < n; ++k) f = f.subst(k, al[k - 1]); Vec u(max<int64_t>(f.deg(0), 0) + 1, 0); for (auto& [m, q] : f.t) u[m[0]] = mpz_get_ui(q.get_num_mpz_t()); zv::strip(u); v.push_back(u); } for (size_t i = 0; i < v.size(); ++i) { if ((int64_t)v[i].size() - 1 != F[i].deg(0)) return false; for (size_t j = 0; j < i; ++j) if (zv::rgcd(v[i], v[j], MOD).size() != 1) return false; } return true; }
typedef polynomial_<Zp, lex> PZ;
static Fs back(const vector<PZ>& r, int n, const char* w) { Fs o; for (auto& x : r) o.push_back(from(x, n, w)); return o; }
static void dioph(const Fs& F0, const Fs& s0, uint64_t p, const vector<RQ>& al, int n) {
    MOD = p; vrand::reset(0); Fs F, S; for (auto& f : F0) F.push_back(f.red()); for (auto& s : s0) S.push_back(s.red()); if (!coprime_at(F, al, n)) { vh::outcome("skip"); return; } RP c = rhs(F, S, n); vector<PZ> LF; for (auto& f : F) LF.push_back(lib<Zp, lex>(f, &lex::init)); PZ lc = lib<Zp, lex>(c, &lex::init); vh::step(); vh::outcome(c.str());
    if (n == 1) { vector<upolynomial_<Zp>> uf, r; for (auto& f : F) uf.push_back(ulib<Zp>(f)); CHECK(__mtshl_zp_univar_mdp(uf, ulib<Zp>(c), r), "no solution found for coprime factors " << show(F)); Fs R; for (auto& x : r) R.push_back(from(x, "solution")); CHECK(R == S, "solution " << show(R) << " instead of " << show(S)); return; }
    bool full = true; for (int k = 1; k < n; ++k) for (auto& s : S) if (!s.zero() && s.deg(k) > c.deg(k)) full = false; vector<Zp> az; for (int k = 1; k < n; ++k) az.push_back(clib<Zp>(al[k - 1])); vector<variable> aux(X.begin() + 1, X.begin() + n);
    if (full) { if (n == 2) { vector<PZ> r; CHECK(__mtshl_multi_bdp(LF, lc, X[0], X[1], az[0], r), "bivariate solver fails on coprime factors"); Fs R = back(r, n, "solution"); CHECK(R == S, "bivariate solver gives " << show(R) << " instead of " << show(S) << " for " << show(F) << " at " << al[0]); } vector<PZ> r; CHECK(__mtshl_wmds(LF, lc, X[0], aux, az, r), "recursive solver fails on coprime factors"); Fs R = back(r, n, "solution"); CHECK(R == S, "recursive solver gives " << show(R) << " instead of " << show(S) << " for " << show(F)); }
    // sparse interpolation with the exact support, and with one monomial too many
    if (p < 1u << 30) return;   // the sparse solver draws its points at random and is only used with word-sized primes
    for (int extra = 0; extra < 2; ++extra) { vector<vector<basic_monomial<lex>>> forms; for (auto& s : S) { forms.emplace_back(); RP t = s; if (extra) { Mon m(n, 0); m[1] = 3; t.t[m] = 1; } for (auto i = t.t.rbegin(); i != t.t.rend(); ++i) forms.back().push_back(mono(i->first, &lex::init)); }
        uint64_t runs = 0; auto one = [&](bool must) { vector<PZ> r; bool ok = __mtshl_sparse_int(LF, lc, forms, X[0], aux, p, r); if (must) CHECK(ok, "sparse solver rejects the true support of " << show(S)); if (ok) { Fs R = back(r, n, "solution"); CHECK(rhs(F, R, n) == c, "sparse solver accepts " << show(R) << " for " << show(S)); } };
        vrand::reset(0); one(p > 1ull << 60); runs = vrand::deviations(0, 2, n - 1, {1, 2, 3, 4, 5, 16 + 1, 16 + 2, 16 + 3, 16 + 4}, [&] { one(false); }); vh::aux(0, runs); }
}
static void dscope(const string& name, int n, const Fs& I, const Fs& T, vector<int> rs, vector<uint64_t> ps, vector<vector<RQ>> als) { struct Q { Fs F, S; }; auto qs = make_shared<vector<Q>>(); for (int r : rs) for (auto& F : subsets(I, r, r, 99)) { uint64_t k = vh::ipow(T.size(), r); for (uint64_t i = 0; i < k; ++i) { Q q{F, {}}; uint64_t v = i; bool ok = true; for (int j = 0; j < r; ++j) { q.S.push_back(T[v % T.size()]); v /= T.size(); ok = ok && (q.S[j].zero() || q.S[j].deg(0) < F[j].deg(0)); } if (ok) qs->push_back(q); } } uint64_t m = ps.size() * als.size();
    vh::scope(name, qs->size() * m, [=](uint64_t i) { auto& q = (*qs)[i / m]; dioph(q.F, q.S, ps[i % ps.size()], als[i % m / ps.size()], n); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { auto& q = (*qs)[i / m]; return "F " + show(q.F) + "sigma " + show(q.S) + "mod " + to_string(ps[i % ps.size()]); }); }
// --- Vandermonde systems
static void vander(const vector<uint64_t>& th, const vector<uint64_t>& c, uint64_t p) { MOD = p; vh::step(); size_t s = th.size(); vector<Zp> T, V, R; for (auto t : th) T.push_back(Zp(t, p)); for (size_t l = 1; l <= s; ++l) { uint64_t v = 0; for (size_t t = 0; t < s; ++t) { uint64_t w = c[t]; for (size_t k = 0; k < l; ++k) w = ref::mulmod(w, th[t], p); v = (uint64_t)(((unsigned __int128)v + w) % p); } V.push_back(Zp(v, p)); } bool good = true; for (size_t i = 0; i < s; ++i) { if (!th[i]) good = false; for (size_t j = 0; j < i; ++j) if (th[i] == th[j]) good = false; } bool ok = __si_vandermonde_solve(V, T, R); CHECK(ok == good, "solver " << (ok ? "accepts" : "rejects") << " a " << (good ? "regular" : "singular") << " system"); if (ok) for (size_t i = 0; i < s; ++i) { CHECK(R.size() == s && R[i].number() == c[i] % p, "coefficient " << i << " is wrong"); vh::outcome(to_string(c[i])); } }
// --- multivariate lifting
static RP at(RP f, const map<variable, ZZ>& al, int n) { for (auto& [v, a] : al) { int k = IDX.at(v.serial()); f = f.subst(k, RQ(zref(a))); } return f; }
static void multi(const Fs& f, int n, int mv, int skip, bool small) {
    MOD = 0; vrand::reset(0); RP a = prod(f, n); if (a.deg(mv) < 2) return; { int used = 0; for (int k = 0; k < n; ++k) used += a.has(k); if (used < 2) return; } for (auto& g : f) if (!g.has(mv)) return; uint64_t p = 0; RZ lcc = a.lc(mv).icont(); for (uint64_t c : {18446744073709551557ull, 18446744073709551533ull, 18446744073709551521ull}) if (!p && !mpz_divisible_ui_p(lcc.get_mpz_t(), c)) p = c; auto g = lib<ZZ, lex>(a, &lex::init); variable x1 = X[mv]; vh::step();
    auto al = __select_eval_point(g, x1, skip, p); int others = 0; for (int k = 0; k < n; ++k) if (k != mv && a.has(k)) { ++others; CHECK(al.count(X[k]), "no value for variable " << k); } CHECK((int)al.size() == others, "evaluation point has " << al.size() << " values"); if (!others) return; RP a0 = at(a, al, n), l0 = at(a.lc(mv), al, n); CHECK(!l0.zero() && a0.deg(mv) == a.deg(mv), "degree drops at the evaluation point"); CHECK(!mpz_divisible_ui_p(l0.cst().get_num_mpz_t(), p), "prime divides the leading coefficient"); { RP u = a0; zf::ZU z = zf::uni(u, mv); zf::Big B; mpz_set_ui(B.p.get_mpz_t(), 2305843009213693951ull); zf::ZU d; for (size_t k = 1; k < z.size(); ++k) d.push_back(z[k] * RZ((long)k)); CHECK(B.gcd(B.red(z), B.red(d)).size() == 1, "image at the evaluation point is not squarefree"); }
    RP u; for (auto& [m, q] : a0.t) u.add({m[mv]}, q); auto fu = ulib<ZZ>(u); auto uf = factorize(fu); vector<upolynomial_<ZZ>> us; for (auto& x : uf.factors) us.push_back(x.first); CHECK(us.size() >= f.size(), "the image has fewer factors than the polynomial"); vh::outcome(to_string(us.size()) + "/" + to_string(f.size())); if (us.size() < 2) return;
    auto L = __wang_leading_coeff(g, us, al, x1, uf.content); bool exact = us.size() == f.size(); if (!L.success) { vh::aux(4); return; }   // another point is tried
    size_t r = us.size(); CHECK(L.lc_targets.size() == r && L.scaled_factors.size() == r, "wrong number of leading coefficients"); RP fs = from(L.f_scaled, n, "scaled polynomial"), pt = RP::c(1, n), pv = RP::c(1, 1); { RP q; CHECK(pos(prim(fs)) == pos(prim(a)), "scaled polynomial is not a multiple of the input"); } for (size_t i = 0; i < r; ++i) { RP t = from(L.lc_targets[i], n, "leading coefficient"), v = from(L.scaled_factors[i], "scaled factor"); pt = pt * t; pv = pv * v; CHECK(!t.has(mv), "leading coefficient contains the main variable"); RP ta = at(t, al, n); CHECK(ta.is_const() && v.lc(0).cst() == ta.cst(), "scaled factor " << v << " does not have leading coefficient " << t << " at the point"); RP w = from(us[i], "image factor"); CHECK(pos(prim(v)) == pos(prim(w)), "scaled factor " << v << " is not a multiple of " << w); } CHECK(pt == fs.lc(mv), "leading coefficients multiply to " << pt << " instead of " << fs.lc(mv)); { RP e = at(fs, al, n), w; for (auto& [m, q] : e.t) w.add({m[mv]}, q); CHECK(pv == w, "scaled factors do not multiply to the image"); }
    if (!exact) return; Fs K = norm1(f); auto check = [&](const char* api, const vector<polynomial_<ZZ, lex>>& G, bool must) { vh::step(); if (G.empty() && !must) { vh::aux(2); return; } RP q = RP::c(1, n); Fs R; for (auto& x : G) { RP y = from(x, n, api); q = q * y; R.push_back(prim(y)); } if (q != fs && !must) { vh::aux(3); return; } CHECK(q == fs, api << " from " << show(f) << " gives " << show(R) << " whose product is not the scaled polynomial"); R = norm1(R); CHECK(R == K, api << " gives " << show(R) << " instead of " << show(K)); };
    check("__mtshl_lift", __mtshl_lift(L.f_scaled, L.scaled_factors, L.lc_targets, al, x1, p), small); check("__multivar_hensel_lift", __multivar_hensel_lift(L.f_scaled, L.scaled_factors, L.lc_targets, al, x1), false); vh::aux(1);
}
static void mscope(const string& name, int n, vector<Fs> S0, int skips, bool small) { for (auto& f : S0) for (auto& g : f) if (!zf::irr(g, n)) { fprintf(stderr, "reducible catalogue entry %s\n", g.str().c_str()); abort(); } auto S = make_shared<vector<Fs>>(S0); uint64_t m = skips * n; vh::scope(name, S->size() * m, [=](uint64_t i) { multi((*S)[i / m], n, i % n, i % m / n, small); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i / m]) + "main x" + to_string(i % n) + " skip " + to_string(i % m / n); }); }
static Fs irrs(vector<RP> A, int n) { Fs o; for (auto& a : A) if (!a.is_const() && a.icont() == 1 && zf::irr(a, n)) { RP p = pos(a); if (find(o.begin(), o.end(), p) == o.end()) o.push_back(p); } return o; }
static Fs thin(const Fs& A, size_t n) { if (A.size() <= n) return A; Fs o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(4); const bool T = vh::thorough; vh::aux_names[0] = "draw_sequences"; vh::aux_names[1] = "lifted_points"; vh::aux_names[2] = "lift_gave_up"; vh::aux_names[3] = "lift_inexact"; vh::aux_names[4] = "leading_coefficients_undecided"; const uint64_t P64 = 18446744073709551557ull;
        { RP x = RP::x(0, 1), o = RP::c(1, 1); auto pc = [&](vector<long> c) { RP r; for (size_t i = 0; i < c.size(); ++i) r = r + RP::x(0, 1, c.size() - 1 - i) * RQ(c[i]); return r; };
          Fs lin; for (int r = -4; r <= 4; ++r) lin.push_back(x - o * RQ(r)); lin.push_back(pc({2, 1})); lin.push_back(pc({3, -2})); lin.push_back(pc({6, 5})); Fs mix{x, x - o, x + o * RQ(7), pc({2, 3}), pc({4, -9}), pc({1, 0, 1}), pc({1, 1, 1}), pc({3, 0, -5}), pc({1, 0, 0, -2}), pc({5, 1, 0, 7}), pc({1, 0, 0, 0, 1}), pc({1, 0, -10, 0, 1}), pc({1, 1, 1, 1, 1}), pc({2, 0, -4, 0, 0, 3}), pc({1, 0, 0, 0, -1, 0, 0, 0, 1})};
          RQ W(RZ("1000000000000000000000000000057")); Fs big{x - o * W, x * W + o, x * x - o * W, x * x + x * W + o, x + o, pc({1, 0, 1})};
          for (int k = 0; k < 2; ++k) { string s = k ? "recombine." : "lift."; uscope(s + "linear", subsets(lin, 2, T ? 7 : 4, 12), k); uscope(s + "mixed", subsets(mix, 1, T ? 4 : 3, T ? 20 : 14), k); uscope(s + "large", subsets(big, 1, 3, 8), k); auto q = irrs(dense(monos_box({2}), T ? ints(-3, 3) : ints(-2, 2)), 1); uscope(s + "quadratics", subsets(q, 2, 2, 4), k); auto c = thin(irrs(dense(monos_box({4}), {RQ(0), RQ(1), RQ(-1), RQ(3)}), 1), T ? 120 : 40); uscope(s + "pairs.deg4", subsets(c, 1, 2, 8), k); } }
        { auto ent = [](uint64_t v, int n, vector<long> e) { vector<vector<RZ>> A(n, vector<RZ>(n)); for (auto& r : A) for (auto& x : r) { x = e[v % e.size()]; v /= e.size(); } return A; }; vector<RZ> Bs{0, 1, 4, 9, 10, 50};
          vector<long> e2; for (long i = T ? -8 : -5; i <= (T ? 8 : 5); ++i) e2.push_back(i); lscope("lll.2x2", vh::ipow(e2.size(), 4), [=](uint64_t i) { return ent(i, 2, e2); }, Bs); vector<long> e3 = T ? vector<long>{-1, 0, 1, 2} : vector<long>{-1, 0, 2}; lscope("lll.3x3", vh::ipow(e3.size(), 9), [=](uint64_t i) { return ent(i, 3, e3); }, {RZ(2), RZ(5)});
          vector<RZ> mo{7, 31, 1009, RZ("18446744073709551557"), RZ("1000000000000000000000000000057")}; uint64_t k = T ? 40 : 24; lscope("lll.knapsack", mo.size() * k * k, [=](uint64_t i) { RZ p = mo[i / (k * k)]; RZ a = (p * RZ((long)(i % k)) * 7 / RZ((long)k)) % p, b = (p * RZ((long)(i / k % k)) * 5 / RZ((long)k) + 1) % p; return vector<vector<RZ>>{{1, 0, 0, a}, {0, 1, 0, b}, {0, 0, 1, (a * b + 1) % p}, {0, 0, 0, p}}; }, {RZ(3), RZ(100)}); }
        { // scalar helpers
          vh::scope("helpers.isqrt", T ? 2000000 : 400000, [](uint64_t i) { MOD = 0; RZ n = (long)i, s = zref(__isqrt_ceil(zlib(n))); vh::step(); CHECK(s >= 0 && s * s >= n && (s == 0 || (s - 1) * (s - 1) < n), "isqrt_ceil(" << n << ") = " << s); RZ b = RZ((long)i + 1) * RZ("18446744073709551629"); for (int d = -1; d <= 1; ++d) { RZ m = b * b + d; s = zref(__isqrt_ceil(zlib(m))); CHECK(s * s >= m && (s - 1) * (s - 1) < m, "isqrt_ceil(" << m << ") = " << s); } vh::state(i); }, [](uint64_t i) { return to_string(i); });
          vh::scope("helpers.binomial", 130 * 130, [](uint64_t i) { MOD = 0; long n = i / 130, k = (long)(i % 130); vh::step(); RZ w = 0; if (k <= n) mpz_bin_uiui(w.get_mpz_t(), n, k); CHECK(zref(__binomial(n, k)) == w, "binomial(" << n << "," << k << ")"); vh::state(i); }, [](uint64_t i) { return to_string(i); });
          vh::scope("helpers.symmetric", 4001 * 62, [](uint64_t i) { MOD = 0; vh::step(); for (RZ m : {RZ((long)(i % 62 + 2)), RZ(RZ((long)(i % 62 + 2)) * RZ("36893488147419103231"))}) { RZ a = (long)(i / 62) - 2000; if (m > 1000000) a = a * (m / 7); RZ s = zref(__symmetric_mod(zlib(a), zlib(m))), d = a - s; CHECK(mpz_divisible_p(d.get_mpz_t(), m.get_mpz_t()) && 2 * s <= m && 2 * s >= -m, "symmetric remainder of " << a << " mod " << m << " is " << s); } vh::state(i); }, [](uint64_t i) { return to_string(i); }); }
        { // Diophantine solvers
          { Fs I = irrs(dense(monos_box({2}), ints(-1, 1)), 1), A = sparse(monos_box({1}), {RQ(1), RQ(-2), RQ(7)}, 2); dscope("mdp.1v", 1, I, A, {2}, {2, 3, 5, 101, P64}, {{}}); dscope("mdp.1v.three", 1, thin(I, 8), thin(A, 6), {3}, {3, 7, P64}, {{}}); }
          { RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); Fs I{x + y, x - y + o, x * x + y * y + o, x * y + o, x * x + x * y - o * RQ(2), x * x * x + y, x * (y + o) + o * RQ(3)}, S = sparse(monos_box({1, 2}), {RQ(1), RQ(-3)}, 2); dscope("mdp.2v", 2, I, thin(S, T ? 40 : 14), {2}, {3, 101, 2147483647ull, P64}, {{RQ(0)}, {RQ(1)}, {RQ(2)}, {RQ(-1)}}); dscope("mdp.2v.three", 2, I, thin(S, T ? 8 : 4), {3}, {101, P64}, {{RQ(0)}, {RQ(1)}, {RQ(2)}}); }
          { RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); Fs I{x + y + z, x - y * z + o, x * x + y * z + o, x * z + y + o, x * x + x * y - z - o * RQ(2)}, S = sparse(monos_box({1, 1, 1}), {RQ(1), RQ(-3)}, 3); dscope("mdp.3v", 3, I, thin(S, T ? 30 : 12), {2}, {5, 2147483647ull, P64}, {{RQ(0), RQ(0)}, {RQ(1), RQ(2)}, {RQ(-1), RQ(1)}}); dscope("mdp.3v.three", 3, I, thin(S, T ? 6 : 4), {3}, {P64}, {{RQ(0), RQ(1)}, {RQ(2), RQ(1)}}); }
          vh::scope("vandermonde.mod5", 3 * vh::ipow(5, 6), [](uint64_t i) { uint64_t p = 5, s = i / 15625 + 1, v = i % 15625; vector<uint64_t> t, c; for (uint64_t k = 0; k < 3; ++k) { if (k < s) { t.push_back(v % 5); c.push_back(v / 5 % 5); } v /= 25; } vander(t, c, p); vh::state(i); }, [](uint64_t i) { return to_string(i); });
          vector<uint64_t> th{0, 1, 2, 3, P64 - 1, P64 - 2, 4294967296ull, 9223372036854775808ull, 12345678901234567ull}; vh::scope("vandermonde.word", vh::ipow(9, 4) * 4, [=](uint64_t i) { uint64_t v = i / 4; vector<uint64_t> t, c; for (uint64_t k = 0; k < 4; ++k) { t.push_back(th[v % 9]); c.push_back(th[(v + i + k * 5) % 9]); v /= 9; } t.resize(i % 4 + 1); c.resize(i % 4 + 1); vander(t, c, P64); vh::state(vh::mix(i)); }, [](uint64_t i) { return to_string(i); }); }
        { // multivariate lifting
          { RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); Fs L{x + y, x - y, x * RQ(2) + y * RQ(3) - o, x * y - o, x * y * y + o, (y * y - o) * x + o, x * x + y * y, x * x - y * RQ(2), x * x * x + y * x + o, y * y * RQ(6) * x + y * RQ(5) + o, (y * y + y) * x * x - o * RQ(2), x * x * (y + o) + x + y}; mscope("wang.2v", 2, subsets(L, 2, T ? 4 : 3, 9), T ? 8 : 4, true); mscope("wang.2v.pairs", 2, subsets(thin(irrs(sparse(monos_box({2, 2}), {RQ(1), RQ(-2)}, 3), 2), T ? 120 : 44), 2, 2, 9), T ? 4 : 2, true); RQ W(RZ("1000000000000000000000000000057")); { RQ p(RZ("18446744073709551557")); mscope("wang.2v.prime", 2, subsets({x * (y + o * p) + o, x * (y + o * (p - 1)) + y, x * (y * p + o * p) + o, x + y + o * RQ(2), x * x * (y - o * (p + 1)) - o, x * x + y}, 2, 3, 9), T ? 12 : 6, false); } mscope("wang.2v.large", 2, subsets({x - y * W, x * W + y, x * x - y * W, x * y + o * W, x * x * y + x * W + o}, 2, 3, 9), 4, false); }
          { RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); Fs L{x + y + z, x * y - z, x * (y + z) + o, x * (y - z) - o * RQ(2), x * x * (y + o) + z, x * x + y * z, x * y * z + x + o, (y * y - z) * x + y, (y + z) * (y - z) * x * x + x + o, x * (y + o) * (z + o) - o}; mscope("wang.3v", 3, subsets(L, 2, 3, 9), T ? 6 : 2, true); }
          { RP x = RP::x(0, 4), y = RP::x(1, 4), z = RP::x(2, 4), t = RP::x(3, 4), o = RP::c(1, 4); mscope("wang.4v", 4, subsets({x + y + z + t, x * y - z * t, x * (y + t) + z, x * x + y * z + t, x * (y - z) + t * RQ(2) - o, x * x * (z + t) - y, x * (y + o) * (z - t) + o}, 2, T ? 3 : 2, 9), T ? 5 : 2, true); } }
    });
}
