// Reference irreducibility over Z (and so over Q): univariate by modular factor-degree
// patterns and, when they do not decide, by exhaustive recombination modulo one prime
// larger than twice the factor bound (no lifting); multivariate by specialisations.
#pragma once
#include "algebra.hh"
#include "zvec.hh"
#include <bitset>
#include <unordered_map>
namespace zf {
using rp::RZ; using rp::RQ; using rp::RP; typedef std::vector<RZ> ZU; using std::vector; using std::string;
inline void st(ZU& f) { while (!f.empty() && f.back() == 0) f.pop_back(); }
inline RZ cont(const ZU& f) { RZ g = 0; for (auto& c : f) g = ref::zgcd(g, c); return g; }
inline ZU primitive(ZU f) { RZ g = cont(f); if (g == 0) return f; if (f.back() < 0) g = -g; for (auto& c : f) c /= g; return f; }
inline ZU mul(const ZU& a, const ZU& b) { if (a.empty() || b.empty()) return {}; ZU r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
inline bool divides(const ZU& g, ZU f) { while (f.size() >= g.size()) { if (f.back() % g.back() != 0) return false; RZ c = f.back() / g.back(); size_t s = f.size() - g.size(); for (size_t j = 0; j < g.size(); ++j) f[s + j] -= c * g[j]; st(f); if (f.empty()) return true; } return f.empty(); }
// big-prime arithmetic
struct Big {
    RZ p; RZ r(const RZ& a) const { RZ t; mpz_fdiv_r(t.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return t; } RZ inv(const RZ& a) const { RZ t; mpz_invert(t.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return t; }
    ZU red(ZU f) const { for (auto& c : f) c = r(c); st(f); return f; } ZU m(const ZU& a, const ZU& b) const { return red(mul(a, b)); } ZU sub(const ZU& a, const ZU& b) const { ZU o(std::max(a.size(), b.size())); for (size_t i = 0; i < o.size(); ++i) o[i] = r((i < a.size() ? a[i] : RZ(0)) - (i < b.size() ? b[i] : RZ(0))); st(o); return o; }
    ZU monic(ZU f) const { if (f.empty()) return f; RZ v = inv(f.back()); for (auto& c : f) c = r(c * v); return f; }
    void dv(ZU a, const ZU& b, ZU& q, ZU& rem) const { q.clear(); RZ v = inv(b.back()); if (a.size() >= b.size()) q.assign(a.size() - b.size() + 1, 0); for (size_t k = q.size(); k-- > 0;) { RZ c = r(a[k + b.size() - 1] * v); q[k] = c; if (c != 0) for (size_t j = 0; j < b.size(); ++j) a[k + j] = r(a[k + j] - c * b[j]); } st(a); rem = a; st(q); }
    ZU mod(const ZU& a, const ZU& b) const { ZU q, t; dv(a, b, q, t); return t; } ZU quo(const ZU& a, const ZU& b) const { ZU q, t; dv(a, b, q, t); return q; } ZU gcd(ZU a, ZU b) const { while (!b.empty()) { ZU t = mod(a, b); a = b; b = t; } return monic(a); }
    ZU pw(ZU b, const RZ& e, const ZU& f) const { ZU o{1}; b = mod(b, f); for (long i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) { o = mod(m(o, o), f); if (mpz_tstbit(e.get_mpz_t(), i)) o = mod(m(o, b), f); } return o; }
    void edf(const ZU& f, size_t d, vector<ZU>& out, uint64_t seed) const { if (f.size() == d + 1) { out.push_back(f); return; } RZ e; mpz_pow_ui(e.get_mpz_t(), p.get_mpz_t(), d); e = (e - 1) / 2; for (uint64_t s = seed;; ++s) { ZU a; for (size_t i = 0; i + 1 < f.size(); ++i) { RZ t; mpz_set_ui(t.get_mpz_t(), vh::mix(s * 1000003 + i)); a.push_back(r(t)); } st(a); if (a.size() < 2) continue; ZU g = gcd(f, sub(pw(a, e, f), ZU{1})); if (g.size() > 1 && g.size() < f.size()) { edf(g, d, out, s + 1); edf(monic(quo(f, g)), d, out, s + 1); return; } } }
    vector<ZU> factor(ZU f) const { vector<ZU> out; ZU x{0, 1}, h = x; f = monic(f); for (size_t d = 1; f.size() > 2 * d; ++d) { h = pw(h, p, f); ZU g = gcd(f, sub(h, x)); if (g.size() > 1) { edf(g, d, out, 1); f = monic(quo(f, g)); h = mod(h, f); } } if (f.size() > 1) out.push_back(f); return out; }
};
inline vector<int> ddegs(const ZU& f, uint64_t p) { // degrees of the factors mod p; empty when p is bad
    Vec a; for (auto& c : f) a.push_back(mpz_fdiv_ui(c.get_mpz_t(), p)); size_t n = a.size(); zv::strip(a); if (a.size() != n) return {}; Vec d; for (size_t k = 1; k < a.size(); ++k) d.push_back(zv::mm(a[k], k % p, p)); zv::strip(d); if (d.empty() || zv::rgcd(a, d, p).size() != 1) return {}; a = zv::monic(a, p); Vec x{0, 1}, h = x, q, r; vector<int> out;
    for (size_t k = 1; a.size() > 2 * k; ++k) { Vec b = h, o{1}; for (uint64_t e = p; e; e >>= 1) { if (e & 1) { zv::rdiv(zv::rmul(o, b, p), a, p, q, r); o = r; } zv::rdiv(zv::rmul(b, b, p), a, p, q, r); b = r; } h = o; Vec g = zv::rgcd(a, zv::radd(h, x, p, true), p); if (g.size() > 1) { for (size_t i = 0; i < (g.size() - 1) / k; ++i) out.push_back(k); zv::rdiv(a, g, p, q, r); a = zv::monic(q, p); zv::rdiv(h, a, p, q, r); h = r; } } if (a.size() > 1) out.push_back(a.size() - 1); return out;
}
inline bool uirr0(const ZU& f) { // f primitive, degree >= 1
    size_t n = f.size() - 1; if (n == 1) return true; if (f[0] == 0) return false; if (n > 300) vh::fail("reference: degree"); std::bitset<512> ok; ok.set(); int good = 0;
    static const vector<uint64_t> PS = [] { vector<uint64_t> v; for (uint64_t k = 2; k < 2000; ++k) if (ref::is_prime_trial(k)) v.push_back(k); return v; }();
    for (uint64_t p : PS) { if (good >= 12) break; auto d = ddegs(f, p); if (d.empty()) { if (p > 1000 && !good) { return false; } continue; } ++good; std::bitset<512> s; s[0] = 1; for (int k : d) s |= s << k; ok &= s; bool dec = true; for (size_t i = 1; i < n; ++i) if (ok[i]) dec = false; if (dec) return true; }
    if (!good) return false;   // not squarefree (every prime below 2000 is bad)
    RZ nn = 0; for (auto& c : f) nn += c * c; RZ sq; mpz_sqrt(sq.get_mpz_t(), nn.get_mpz_t()); sq += 1; RZ lc = abs(f.back()), B = RZ(2) * lc * lc * sq; mpz_mul_2exp(B.get_mpz_t(), B.get_mpz_t(), n + 1); Big g; g.p = B; ZU fd; for (size_t k = 1; k <= n; ++k) fd.push_back(f[k] * RZ((long)k));
    for (;;) { mpz_nextprime(g.p.get_mpz_t(), g.p.get_mpz_t()); if (g.r(f.back()) == 0) continue; if (g.gcd(g.red(f), g.red(fd)).size() == 1) break; }
    auto F = g.factor(g.red(f)); size_t r = F.size(); if (r > 22) vh::fail("reference: too many modular factors"); RZ half = g.p / 2;
    for (uint64_t m = 1; m < (1ull << (r - 1)); ++m) { size_t d = 0; for (size_t i = 0; i < r; ++i) if (m >> i & 1) d += F[i].size() - 1; if (!ok[d]) continue; ZU c{g.r(f.back())}; RZ c0 = c[0]; for (size_t i = 0; i < r; ++i) if (m >> i & 1) c0 = g.r(c0 * F[i][0]); if (c0 > half) c0 -= g.p; if (c0 == 0 || (f[0] * f.back()) % c0 != 0) continue; for (size_t i = 0; i < r; ++i) if (m >> i & 1) c = g.m(c, F[i]); for (auto& k : c) if (k > half) k -= g.p; c = primitive(c); if (divides(c, f)) return false; }
    return true;
}
inline bool uirr(const ZU& f) { static std::unordered_map<string, bool> memo; string k; for (auto& c : f) k += c.get_str(32) + ","; auto it = memo.find(k); if (it != memo.end()) return it->second; bool b = uirr0(f); if (memo.size() < 2000000) memo[k] = b; return b; }
inline ZU uni(const RP& a, int v) { ZU f(a.deg(v) + 1); for (auto& [m, q] : a.t) f[m[v]] = q.get_num(); return f; }
// irreducible over Q; a has integer coefficients and is not constant
inline bool irr(const RP& a0, int n) {
    RP a = rp::prim(a0); vector<int> vs; for (int v = 0; v < n; ++v) if (a.has(v)) vs.push_back(v); if (vs.empty()) return false; if (vs.size() == 1) return uirr(primitive(uni(a, vs[0])));
    // no factor free of the chosen variable, and a specialisation of full degree is irreducible
    int v = vs[0]; for (int u : vs) if (a.deg(u) < a.deg(v)) v = u; auto cs = a.coeffs(v); RP g; for (auto& c : cs) g = g.zero() ? c : rp::fgcd(g, c); if (!g.is_const()) return false; if (a.deg(v) == 1) return true;
    static std::map<RP, bool> memo; auto it = memo.find(a); if (it != memo.end()) return it->second;
    for (uint64_t k = 1; k < 500; ++k) { RP s = a; int i = 0; for (int u : vs) if (u != v) { uint64_t h = vh::mix(k * 16 + i++); long lim = k < 40 ? 4 : k < 150 ? 20 : 300; s = s.subst(u, RQ((long)(h % (2 * lim + 1)) - lim)); } if (s.zero() || s.deg(v) != a.deg(v)) continue; if (uirr(primitive(uni(s, v)))) return memo[a] = true; }
    return memo[a] = false;
}
}
