// C18: dense prime-field arithmetic: every algorithm choice gives the exact answer.
#include "harness.hh"
#include "ref.hh"
#include "c18.hh"
#include "zvec.hh"
#include <clpoly/polynomial_gcd.hh>
using namespace std; typedef void (*Eng)(int, const Vec&, const Vec&, uint64_t, Vec&, Vec&);
void eng_e0(int, const Vec&, const Vec&, uint64_t, Vec&, Vec&); void eng_e1(int, const Vec&, const Vec&, uint64_t, Vec&, Vec&); void eng_e2(int, const Vec&, const Vec&, uint64_t, Vec&, Vec&); void eng_e3(int, const Vec&, const Vec&, uint64_t, Vec&, Vec&);
using namespace zv;
#define IS(x, e, w) do { vh::step(); if ((x) != (e)) vh::fail(string(w) + " mod " + to_string(p) + " of " + str(a) + " , " + str(b) + ": got " + str(x) + " expected " + str(e)); } while (0)
static void muls(Eng E, const Vec& a, const Vec& b, uint64_t p, bool alias) { Vec e = rmul(a, b, p), x, y; E(MUL, a, b, p, x, y); IS(x, e, "product"); if (!alias) return; E(MUL_AL, a, b, p, x, y); IS(x, e, "product into first operand"); E(MUL_BL, a, b, p, x, y); IS(x, e, "product into second operand"); Vec s = rmul(a, a, p); E(SQR, a, b, p, x, y); IS(x, s, "square"); E(SQR_AL, a, b, p, x, y); IS(x, s, "square in place"); }
static void divs(Eng E, const Vec& a, const Vec& b, uint64_t p, bool alias) { if (b.empty()) return; Vec q, r, x, y; rdiv(a, b, p, q, r); E(DIV, a, b, p, x, y); IS(x, q, "quotient"); IS(y, r, "remainder"); if (!alias) return; E(DIV_AL, a, b, p, x, y); IS(x, q, "quotient, remainder in place"); IS(y, r, "remainder in place"); E(DIV_BL, a, b, p, x, y); IS(x, q, "quotient in place"); IS(y, r, "remainder into divisor"); }
static void adds(Eng E, const Vec& a, const Vec& b, uint64_t p) { Vec x, y, s = radd(a, b, p), d = radd(a, b, p, true), z; E(ADD, a, b, p, x, y); IS(x, s, "sum"); E(ADD_AL, a, b, p, x, y); IS(x, s, "sum in place"); E(SUB, a, b, p, x, y); IS(x, d, "difference"); E(SUB_AL, a, b, p, x, y); IS(x, d, "difference in place"); E(SUB_SELF, a, b, p, x, y); IS(x, z, "a-a"); uint64_t c = b.empty() ? 0 : b[0]; Vec m = rmul(a, c ? Vec{c} : Vec{}, p); E(SCAL, a, b, p, x, y); IS(x, m, "scalar product"); }
static void gcds(Eng E, const Vec& a, const Vec& b, uint64_t p, const Vec* known, bool alias) { Vec e = known ? monic(*known, p) : rgcd(a, b, p), x, y; E(GCD, a, b, p, x, y); x = monic(x, p); IS(x, e, "gcd"); if (alias) { E(GCD_AL, a, b, p, x, y); x = monic(x, p); IS(x, e, "gcd in place"); } }
static Vec digits(uint64_t k, uint64_t p) { Vec v; while (k) { v.push_back(k % p); k /= p; } return v; }
static Vec lcg(size_t n, uint64_t p, uint64_t s, int pat) { Vec v(n); uint64_t x = vh::mix(s); for (size_t i = 0; i < n; ++i) { x = vh::mix(x + i); v[i] = pat == 0 ? p - 1 : pat == 1 ? x % p : pat == 2 ? (x % 5 ? 0 : x / 5 % p) : (x & 1 ? p - 1 - x % 3 % p : x % 3 % p); } if (n) v[n - 1] = pat == 1 ? 1 + x % (p - 1) : pat == 2 ? 1 : p - 1; return v; }
// polynomials with a prescribed remainder sequence: quotient degrees d_1..d_k and gcd of degree g
struct Shape { vector<int> d; int g; string name; };
static void build(const Shape& s, uint64_t p, int pat, Vec& a, Vec& b, Vec& g) { g = lcg(s.g + 1, p, 77 + s.g, pat); Vec u = g, v; for (size_t i = s.d.size(); i-- > 0;) { Vec q = lcg(s.d[i] + 1, p, 1000 + i * 31 + s.d[i], pat); Vec w = radd(rmul(u, q, p), v, p); v = u; u = w; } a = u; b = v; }
static vector<uint64_t> PR{2, 3, 97, 2147483659ull, 9223372036854775837ull, 18446744073709551557ull};
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        bool T = vh::thorough; static const pair<const char*, Eng> ES[] = {{"k16.h100.g340", eng_e0}, {"k2.h2.g3", eng_e1}, {"k3.h4.g6", eng_e2}, {"k5.h9.g14", eng_e3}};
        // every pair of polynomials over small fields, every threshold setting: all algorithm choices are exercised at tiny sizes
        static const pair<int, int> F[] = {{2, 8}, {3, 5}, {5, 3}, {7, 3}}; for (auto [p, len] : F) { uint64_t N = vh::ipow(p, len + (T ? (p == 2 ? 3 : p < 7 ? 1 : 0) : 0)); for (auto& e : ES) { Eng E = e.second; uint64_t P = p;
            vh::scope("all.p" + to_string(p) + "." + e.first, N, [=](uint64_t i) { Vec a = digits(i, P); for (uint64_t j = 0; j < N; ++j) { Vec b = digits(j, P); bool al = j % 64 == i % 64; muls(E, a, b, P, al); divs(E, a, b, P, al); if (j <= i) gcds(E, a, b, P, nullptr, al); if (al) adds(E, a, b, P); } vh::state(vh::mix(i) ^ P); }, [=](uint64_t i) { return str(digits(i, P)) + " with every polynomial of that size"; }); } }
        // every pair of lengths across the thresholds, boundary primes, extreme / dense / sparse coefficients
        for (auto& e : ES) { Eng E = e.second; bool d0 = E == eng_e0; int L = d0 ? (T ? 70 : 40) : 20; vector<int> Ls; for (int i = 0; i <= L; ++i) Ls.push_back(i); if (d0) for (int x : {47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 200, 255, 256, 257}) if (x > L) Ls.push_back(x); uint64_t n = Ls.size();
            vh::scope(string("lengths.") + e.first, n * n * PR.size(), [=](uint64_t i) { vh::Dec d(i); int la = Ls[d(n)], lb = Ls[d(n)]; uint64_t p = PR[d(PR.size())]; for (int pa = 0; pa < 4; ++pa) for (int pb = 0; pb < 4; ++pb) { if (la + lb > 160 && pa != pb) continue; Vec a = lcg(la, p, la + 1, pa), b = lcg(lb, p, lb + 500, pb); muls(E, a, b, p, pa == pb); divs(E, a, b, p, pa == pb); if (!d0 || la + lb < 100) gcds(E, a, b, p, nullptr, pa == pb); adds(E, a, b, p); } vh::state(vh::mix(i)); }, [=](uint64_t i) { vh::Dec d(i); int la = Ls[d(n)], lb = Ls[d(n)]; return "lengths " + to_string(la) + "," + to_string(lb) + " mod " + to_string(PR[d(PR.size())]); }); }
        // modular reduction: every bit length, primes at the bottom, in the middle and at the top of it, all pairs of boundary residues
        { auto P = make_shared<vector<uint64_t>>(); for (int b = 2; b <= 64; ++b) { uint64_t lo = 1ull << (b - 1), hi = lo + (lo - 1); auto up = [&](uint64_t n) { for (; n <= hi && n >= lo; ++n) if (ref::is_prime64(n)) { P->push_back(n); return; } }; up(lo); up(lo + lo / 4); up(lo + lo / 2); for (uint64_t n = hi; n >= lo; --n) if (ref::is_prime64(n)) { P->push_back(n); break; } } sort(P->begin(), P->end()); P->erase(unique(P->begin(), P->end()), P->end());
          vh::scope("reduction", P->size(), [=](uint64_t i) { uint64_t p = (*P)[i]; set<uint64_t> R; for (uint64_t k : {0ull, 1ull, 2ull, 3ull}) { R.insert(k % p); R.insert(p - 1 - k % p); R.insert((p / 2 + k) % p); R.insert((p / 3 + k) % p); } for (int b = 5; b < 64; b += 7) { R.insert((1ull << b) % p); R.insert(((1ull << b) - 1) % p); } for (int k = 0; k < (T ? 120 : 30); ++k) R.insert(vh::mix(k * 977 + 5) % p);
            vector<uint64_t> r(R.begin(), R.end()); size_t n = r.size(); for (size_t x = 0; x < n; ++x) for (size_t z = 0; z < n; ++z) { uint64_t y = r[(x * 5 + z * 3 + 1) % n], w = r[(x + z * 7 + 2) % n]; Vec a{r[x], y ? y : 1}, b{r[z], w ? w : 1}; muls(eng_e0, a, b, p, x == z); if (z % 4 == x % 4) { divs(eng_e0, rmul(a, b, p), b, p, false); divs(eng_e0, Vec{r[z], r[x], 1, y ? y : 1}, b, p, false); gcds(eng_e0, rmul(a, b, p), rmul(a, Vec{r[(z + 1) % n], 1}, p), p, nullptr, false); } } vh::state(p); }, [=](uint64_t i) { return "prime " + to_string((*P)[i]); }); }
        // bilinearity basis: every unit-vector pair under the small-threshold Karatsuba and the default one
        for (auto& e : ES) { Eng E = e.second; int L = E == eng_e0 ? 36 : 14; vh::scope(string("units.") + e.first, L, [=](uint64_t la) { uint64_t p = 18446744073709551557ull; for (int lb = 1; lb <= (int)la + 1; ++lb) for (int i = 0; i <= (int)la; ++i) for (int j = 0; j < lb; ++j) { Vec a(la + 1), b(lb); a[i] = p - 1; b[j] = p - 2; a[la] = a[la] ? a[la] : 1; b[lb - 1] = b[lb - 1] ? b[lb - 1] : p - 1; muls(E, a, b, p, false); } vh::state(la); }); }
        // every quotient-degree sequence (composition of the degree) with every gcd degree
        for (auto& e : ES) { Eng E = e.second; if (E == eng_e0) continue; int D = T ? 15 : 12; vh::scope(string("compositions.") + e.first, 1ull << (D - 1), [=](uint64_t m) { vector<int> d{1}; for (int i = 0; i < D - 1; ++i) if (m >> i & 1) d.push_back(1); else ++d.back(); for (int g = 0; g <= (T ? 12 : 6); ++g) for (uint64_t p : {2ull, 3ull, 18446744073709551557ull}) for (int pat = 0; pat < 2; ++pat) { Vec a, b, h; build({d, g, ""}, p, pat, a, b, h); gcds(E, a, b, p, &h, false); gcds(E, b, a, p, &h, false); vh::state(vh::mix(m) ^ vh::mix(g * 7 + p)); } }, [](uint64_t m) { return "composition mask " + to_string(m); }); }
        // half-gcd at its real thresholds: families of remainder sequences around and above them
        { auto S = make_shared<vector<Shape>>(); auto rep = [](int k, int total) { vector<int> v; for (int t = 0; t < total; t += k) v.push_back(min(k, total - t)); return v; };
          for (int n = 338; n <= (T ? 420 : 350); ++n) { S->push_back({rep(1, n), 0, "normal " + to_string(n)}); S->push_back({rep(2, n), 0, "twos " + to_string(n)}); S->push_back({rep(1, n - 100), 100, "gcd100 " + to_string(n)}); }
          for (int k : {2, 3, 4, 5, 7, 11, 16, 17, 25, 50, 51, 85, 100, 120, 170, 171, 199, 200, 341}) for (int n : {400, 401}) S->push_back({rep(k, n), 0, "step " + to_string(k) + " of " + to_string(n)});
          for (int gap : {2, 3, 9, 40, 99, 100, 101, 102, 150, 171, 200, 260}) for (int pos = 0; pos + gap <= 402; pos += T ? 3 : 20) for (int g : {0, 37}) { vector<int> v = rep(1, pos); v.push_back(gap); auto w = rep(1, 402 - pos - gap); v.insert(v.end(), w.begin(), w.end()); S->push_back({v, g, "gap " + to_string(gap) + " at " + to_string(pos) + " gcd " + to_string(g)}); }
          for (int g1 : {20, 60, 110, 180}) for (int g2 : {20, 60, 110, 180}) for (int pos = 0; pos <= 100; pos += T ? 10 : 50) { vector<int> v = rep(1, pos); v.push_back(g1); auto w = rep(1, 60); v.insert(v.end(), w.begin(), w.end()); v.push_back(g2); w = rep(1, 150); v.insert(v.end(), w.begin(), w.end()); S->push_back({v, 3, "gaps " + to_string(g1) + "," + to_string(g2) + " at " + to_string(pos)}); }
          for (int g = 0; g <= 400; g += T ? 5 : 40) S->push_back({rep(1, 345), g, "gcd degree " + to_string(g)}); for (int l : {1, 2, 10, 100, 300, 341}) { auto v = rep(1, 345); v.insert(v.begin(), l); S->push_back({v, 2, "excess " + to_string(l)}); }
          for (int n : T ? vector<int>{700, 799, 800, 801, 900, 1023, 1024, 1025, 1500, 1601} : vector<int>{700, 800, 801}) { S->push_back({rep(1, n), 1, "large normal " + to_string(n)}); S->push_back({rep(3, n), 0, "large threes " + to_string(n)}); for (int pos : {10, n / 4, n / 2, n / 2 + 30, n - 140}) { vector<int> v = rep(1, pos); v.push_back(130); auto w = rep(1, n - pos - 130); v.insert(v.end(), w.begin(), w.end()); S->push_back({v, 5, "large gap at " + to_string(pos) + " of " + to_string(n)}); } }
          uint64_t n = S->size(); vector<uint64_t> ps{2, 97, 2147483647ull, 18446744073709551557ull}; if (T) ps = PR;
          vh::scope("hgcd.shapes", n * ps.size(), [=](uint64_t i) { const Shape& s = (*S)[i % n]; uint64_t p = ps[i / n]; Vec a, b, g; build(s, p, 1, a, b, g); gcds(eng_e0, a, b, p, &g, i % 16 == 0); gcds(eng_e0, b, a, p, &g, false); vh::state(vh::mix(i)); vh::outcome(a.size() * 1000 + b.size()); }, [=](uint64_t i) { return (*S)[i % n].name + " mod " + to_string(ps[i / n]); }); }
        // sparse and dense paths of the public polynomial layer agree
        vh::scope("sparse_layer", 6 * 26 * 26, [](uint64_t i) { using namespace clpoly; vh::Dec d(i); uint64_t p = PR[d(6)]; int la = d(26), lb = d(26); for (int pa = 1; pa < 4; ++pa) { Vec a = lcg(la, p, la + 9, pa), b = lcg(lb, p, lb + 700, pa); auto mk = [&](const Vec& v) { upolynomial_<Zp> u; for (size_t k = v.size(); k-- > 0;) if (v[k]) u.push_back({umonomial((int64_t)k), Zp(v[k], p)}); return u; }; auto un = [&](const upolynomial_<Zp>& u) { Vec v; if (u.empty()) return v; v.resize(u.front().first.deg() + 1); for (auto& t : u) v[t.first.deg()] = t.second.number(); return v; };
            auto A = mk(a), B = mk(b); IS(un(A * B), rmul(a, b, p), "sparse product"); IS(un(A + B), radd(a, b, p), "sparse sum"); IS(un(A - B), radd(a, b, p, true), "sparse difference"); if (lb) { Vec q, r; rdiv(a, b, p, q, r); upolynomial_<Zp> Q, R; pair_vec_div(Q.data(), R.data(), A.data(), B.data(), A.comp()); IS(un(Q), q, "sparse quotient"); IS(un(R), r, "sparse remainder"); } IS(un(polynomial_GCD(A, B)), rgcd(a, b, p), "sparse gcd"); IS(un(A), a, "operand"); IS(un(B), b, "operand"); } vh::state(vh::mix(i)); }, [](uint64_t i) { return "index " + to_string(i); });
    });
}
