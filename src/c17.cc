// C17: factorisation of univariate polynomials over prime fields, for every input and every draw outcome.
#include "harness.hh"
#include "zvec.hh"
#include <clpoly/clpoly.hh>
using namespace zv; typedef vector<pair<Vec, uint64_t>> Fac; typedef clpoly::upolynomial_<clpoly::Zp> UP;
static Vec digits(uint64_t k, uint64_t p) { Vec v; while (k) { v.push_back(k % p); k /= p; } return v; }
static UP mk(const Vec& v, uint64_t p) { UP u; for (size_t k = v.size(); k-- > 0;) if (v[k]) u.push_back({clpoly::umonomial((int64_t)k), clpoly::Zp(v[k], p)}); return u; }
static Vec un(const UP& u, uint64_t p) { Vec v; if (u.empty()) return v; int64_t last = INT64_MAX; v.resize(u.front().first.deg() + 1); for (auto& t : u) { CHECK(t.first.deg() < last && t.first.deg() >= 0 && t.second.number() && t.second.number() < p && t.second.prime() == p, "result is not a canonical polynomial over Z/" << p); v[last = t.first.deg()] = t.second.number(); } return v; }
static string show(const Fac& f) { string s; for (auto& x : f) s += str(x.first) + "^" + to_string(x.second) + " "; return s; }
static Vec pmod(const Vec& a, const Vec& m, uint64_t p) { Vec q, r; rdiv(a, m, p, q, r); return r; }
static Vec ppow(Vec b, uint64_t e, const Vec& m, uint64_t p) { Vec r{1}; b = pmod(b, m, p); for (; e; e >>= 1) { if (e & 1) r = pmod(rmul(r, b, p), m, p); b = pmod(rmul(b, b, p), m, p); } return pmod(r, m, p); }
// Rabin's irreducibility test
static bool irred(const Vec& f, uint64_t p) { int n = f.size() - 1; if (n < 1) return false; if (n == 1) return true; Vec x{0, 1}; vector<Vec> fr{x}; for (int i = 1; i <= n; ++i) fr.push_back(ppow(fr.back(), p, f, p)); if (fr[n] != pmod(x, f, p)) return false; for (int q = 2; q <= n; ++q) if (n % q == 0 && ref::is_prime_trial(q)) { Vec d = radd(fr[n / q], x, p, true); if (rgcd(f, d, p).size() != 1) return false; } return true; }
// all monic irreducibles of small fields by sieving
static map<uint64_t, set<Vec>> SV; static map<uint64_t, int> SD;
static void sieve(uint64_t p, int D) { if (SD[p] >= D) return; SD[p] = D; set<Vec> red, irr; vector<vector<Vec>> mon(D + 1); for (int d = 1; d <= D; ++d) for (uint64_t k = 0; k < vh::ipow(p, d); ++k) { Vec v = digits(k, p); v.resize(d + 1); v[d] = 1; mon[d].push_back(v); } vector<vector<Vec>> I(D + 1); for (int d = 1; d <= D; ++d) { for (auto& m : mon[d]) if (!red.count(m)) { I[d].push_back(m); irr.insert(m); } for (int e = 1; e + d <= D; ++e) for (auto& a : I[d]) for (auto& b : mon[e]) red.insert(rmul(a, b, p)); } SV[p] = irr; }
static bool irr(const Vec& f, uint64_t p) { return SD.count(p) && (int)f.size() - 1 <= SD[p] ? SV[p].count(f) > 0 : irred(f, p); }
static void check(const Vec& a, uint64_t p, const Fac* known) {
    auto res = clpoly::__factor_Zp(mk(a, p)); vh::step(); Fac F; for (auto& x : res.second) F.push_back({un(x.first, p), x.second}); Vec prod{res.first.number()};
    CHECK(res.first.number() == a.back() && res.first.prime() == p, "leading constant of the factorisation of " << str(a) << " mod " << p << " is " << res.first.number());
    for (size_t i = 0; i < F.size(); ++i) { auto& f = F[i].first; CHECK(f.size() >= 2 && f.back() == 1 && F[i].second >= 1, "factor of " << str(a) << " mod " << p << " is constant, not monic or has no multiplicity: " << show(F)); for (uint64_t e = 0; e < F[i].second && prod.size() <= a.size(); ++e) prod = rmul(prod, f, p); for (size_t j = 0; j < i; ++j) CHECK(F[j].first != f, "factor listed twice in " << show(F)); }
    CHECK(prod == a, "factors " << show(F) << " of " << str(a) << " mod " << p << " multiply to " << str(prod)); for (auto& f : F) CHECK(irr(f.first, p), "factor " << str(f.first) << " of " << str(a) << " mod " << p << " is reducible");
    if (known) { auto G = *known; sort(F.begin(), F.end()); sort(G.begin(), G.end()); CHECK(F == G, "factorisation of " << str(a) << " mod " << p << " is " << show(F) << ", expected " << show(G)); }
    // the squarefree stage on its own
    auto keep = vrand::C; vrand::reset(0); auto S = clpoly::__squarefree_Zp(mk(a, p)); vrand::C = keep; Vec q{1}; vector<Vec> parts; for (auto& x : S) { Vec f = un(x.first, p); CHECK(f.size() >= 2 && x.second >= 1, "squarefree part"); for (uint64_t e = 0; e < x.second && q.size() <= a.size(); ++e) q = rmul(q, f, p); Vec d; for (size_t k = 1; k < f.size(); ++k) d.push_back(mm(f[k], k % p, p)); strip(d); CHECK(!d.empty() && rgcd(f, d, p).size() == 1, "squarefree part " << str(f) << " of " << str(a) << " mod " << p << " is not squarefree"); for (auto& g : parts) CHECK(rgcd(f, g, p).size() == 1, "squarefree parts of " << str(a) << " mod " << p << " share a factor"); parts.push_back(f); } CHECK(monic(q, p) == monic(a, p), "squarefree parts of " << str(a) << " mod " << p << " do not multiply to it");
}
static const vector<unsigned char> MENU{1, 2, 3, 4, 5};
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        vh::aux_names[0] = "draw_sequences";        bool T = vh::thorough; typedef pair<uint64_t, int> PD; vector<PD> fields{{2, T ? 16 : 14}, {3, T ? 10 : 9}, {5, T ? 7 : 6}, {7, T ? 6 : 5}, {11, T ? 5 : 4}, {13, T ? 5 : 4}, {17, T ? 4 : 3}, {31, T ? 3 : 2}, {127, 2}, {257, 2}};
        // every monic polynomial up to a degree over small fields (and every leading coefficient up to 3)
        for (auto [p0, D0] : fields) { uint64_t p = p0; int D = D0; sieve(p, min(D, p == 2 ? 11 : p == 3 ? 7 : p == 5 ? 5 : p < 11 ? 4 : p < 30 ? 3 : 2)); uint64_t N = vh::ipow(p, D), st = 1; for (int i = 0; i < D; ++i) st = st; vh::scope("all.p" + to_string(p), N, [=](uint64_t i) { for (int d = 1; d <= D; ++d) if (i < vh::ipow(p, d) && (d == D || i >= 0)) { Vec a = digits(i, p); a.resize(d + 1); a[d] = 1; for (uint64_t l = 1; l < min<uint64_t>(p, d < D ? 4 : 2); ++l) { Vec b = a; for (auto& c : b) c = mm(c, l, p); vrand::reset(0); check(b, p, nullptr); } vh::state(vh::mix(i) ^ vh::mix(p * 64 + d)); } }, [=](uint64_t i) { return "monic polynomials with low part " + str(digits(i, p)) + " mod " + to_string(p); }); }
        // every draw outcome: inputs that need splitting, every deviation of the early draws
        for (auto [p0, D0] : vector<PD>{{2, 10}, {3, 7}, {5, 6}, {7, 5}, {13, 4}, {17, 4}}) { uint64_t p = p0; int D = D0 - (T ? 0 : 1); uint64_t N = vh::ipow(p, D); sieve(p, D); vh::scope("draws.p" + to_string(p), N, [=](uint64_t i) { Vec a = digits(i, p); a.resize(D + 1); a[D] = 1; uint64_t r = vrand::deviations(1, T ? 3 : 2, T ? 16 : 12, MENU, [&] { check(a, p, nullptr); }); vh::aux(0, r); vh::state(vh::mix(i) ^ p); }, [=](uint64_t i) { Vec a = digits(i, p); a.resize(D + 1); a[D] = 1; return str(a) + " mod " + to_string(p); }); }
        // word-size primes: products of all small multisets of known irreducibles, with multiplicities
        for (uint64_t p : {257ull, 65521ull, 65537ull, 2147483647ull, 4294967291ull, 4294967311ull, 4611686018427387847ull, 9223372036854775783ull, 9223372036854775837ull, 18446744073709551557ull}) {
            auto I = make_shared<vector<Vec>>(); for (uint64_t r : {(uint64_t)0, (uint64_t)1, p - 1, p / 2, (uint64_t)2}) I->push_back({r, 1}); int q = 0; for (uint64_t c = 2; q < 2; ++c) { Vec f{c, 1, 1}; if (irred(f, p)) { I->push_back(f); ++q; } } for (uint64_t c = 1;; ++c) { Vec f{p - c, 2, 0, 1}; if (irred(f, p)) { I->push_back(f); break; } }
            auto S = make_shared<vector<Fac>>(); int tot = T ? 10 : 8, me = 3; function<void(size_t, Fac, int)> rec = [&](size_t i, Fac f, int left) { if (i == I->size()) { if (!f.empty()) S->push_back(f); return; } for (int e = 0; e <= me && e * (int)((*I)[i].size() - 1) <= left; ++e) { Fac g = f; if (e) g.push_back({(*I)[i], (uint64_t)e}); if (e > 1 && f.size() > 2 && !T) break; rec(i + 1, g, left - e * (int)((*I)[i].size() - 1)); } }; rec(0, {}, tot);
            uint64_t stp = 1, N = (S->size() + stp - 1) / stp; vh::scope("known.p" + to_string(p), N, [=](uint64_t k) { const Fac& f = (*S)[k * stp]; Vec a{k % 3 == 0 ? p - 1 : k % 3 == 1 ? (uint64_t)1 : p / 2}; for (auto& x : f) for (uint64_t e = 0; e < x.second; ++e) a = rmul(a, x.first, p); vrand::reset(k); check(a, p, &f); vh::state(vh::mix(k) ^ p); }, [=](uint64_t k) { return show((*S)[k * stp]) + " mod " + to_string(p); }); }
        // p-th powers and mixtures with p-th powers
        for (uint64_t p0 : {2ull, 3ull, 5ull, 7ull}) { uint64_t p = p0; vector<Vec> I; for (auto& v : SV[p]) if (v.size() <= 3) I.push_back(v); sort(I.begin(), I.end()); if (I.size() > 6) I.resize(6); auto S = make_shared<vector<Fac>>(); vector<uint64_t> es{0, 1, p - 1, p, p + 1, 2 * p, p * p, p * p + p}; uint64_t lim = p == 2 ? 26 : p == 3 ? 32 : p == 5 ? 40 : 60; function<void(size_t, Fac, uint64_t, int)> rec = [&](size_t i, Fac f, uint64_t deg, int cnt) { if (i == I.size()) { if (cnt) S->push_back(f); return; } set<uint64_t> seen; for (auto e : es) if (seen.insert(e).second && deg + e * (I[i].size() - 1) <= lim && (!e || cnt < 3)) { Fac g = f; if (e) g.push_back({I[i], e}); rec(i + 1, g, deg + e * (I[i].size() - 1), cnt + (e > 0)); } }; rec(0, {}, 0, 0);
            vh::scope("powers.p" + to_string(p), S->size(), [=](uint64_t k) { const Fac& f = (*S)[k]; Vec a{p - 1}; for (auto& x : f) for (uint64_t e = 0; e < x.second; ++e) a = rmul(a, x.first, p); vrand::reset(k); check(a, p, &f); vh::state(vh::mix(k) ^ p); }, [=](uint64_t k) { return show((*S)[k]) + " mod " + to_string(p); }); }
        // highly structured inputs: x^n - c, cyclotomic-like splits, all-linear and all-quadratic products
        vector<tuple<uint64_t, int, uint64_t>> X; for (uint64_t p : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull, 17ull, 31ull, 127ull, 257ull, 65537ull, 2147483647ull, 18446744073709551557ull}) for (int n = 1; n <= (T ? 60 : 40); ++n) for (uint64_t c : {(uint64_t)1, p - 1, (uint64_t)(2 % p)}) if (c) X.push_back({p, n, c}); auto PX = make_shared<decltype(X)>(X); vh::scope("binomials", X.size(), [=](uint64_t i) { auto [p, n, c] = (*PX)[i]; Vec a(n + 1); a[n] = 1; a[0] = c; vrand::reset(i); check(a, p, nullptr); vh::state(i); }, [=](uint64_t i) { auto [p, n, c] = (*PX)[i]; return "x^" + to_string(n) + "+" + to_string(c) + " mod " + to_string(p); });
        for (uint64_t p : {11ull, 13ull, 31ull, 127ull}) vh::scope("split.p" + to_string(p), p, [=](uint64_t k) { if (!k) return; Fac f; Vec a{1}; for (uint64_t r = 0; r < min<uint64_t>(p, 40); ++r) if (r % k || k == 1) { f.push_back({{r, 1}, 1}); a = rmul(a, {r, 1}, p); } if (f.empty()) return; vrand::reset(k); check(a, p, &f); vh::state(k * 1000 + p); });
        vh::scope("constants", 200, [](uint64_t i) { uint64_t p = vector<uint64_t>{2, 3, 101, 18446744073709551557ull}[i % 4], c = 1 + (i / 4) % (p - 1); auto r = clpoly::__factor_Zp(mk({c}, p)); CHECK(r.first.number() == c && r.second.empty(), "constant"); });
    });
}
