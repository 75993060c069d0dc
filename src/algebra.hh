// Reference algebra on RP: exact division, gcd, squarefree tests, determinants.
// Textbook algorithms (primitive remainder sequences), independent of the library's.
#pragma once
#include "poly.hh"
namespace rp {
inline int nvars(const RP& a) { return a.t.empty() ? 0 : a.t.begin()->first.size(); }
// exact division over the coefficient field (Q, or Z/MOD): true iff b | a, quotient in q
inline bool exdiv(RP a, const RP& b, RP& q) {
    q = RP(); if (b.zero()) return false; auto [mb, cb] = *b.t.rbegin(); RQ ib = norm(RQ(1) / cb);
    while (!a.zero()) {
        auto [ma, ca] = *a.t.rbegin(); Mon m = ma; for (size_t i = 0; i < m.size(); ++i) if ((m[i] -= mb[i]) < 0) return false;
        RQ c = norm(ca * ib); q.add(m, c); for (auto& x : b.t) { Mon s = x.first; for (size_t i = 0; i < m.size(); ++i) s[i] += m[i]; a.add(s, -(c * x.second)); }
    }
    return true;
}
inline RP exq(const RP& a, const RP& b) { RP q; if (!exdiv(a, b, q)) vh::fail("reference: inexact division"); return q; }
inline bool zintegral(const RP& a) { for (auto& x : a.t) if (x.second.get_den() != 1) return false; return true; }
// over Z: divide by integer content, positive leading coefficient; over a field: monic
inline RP prim(const RP& a) {
    if (a.zero()) return a; if (MOD) return a * norm(RQ(1) / a.t.rbegin()->second);
    RZ d = 1, g = 0; for (auto& x : a.t) { RZ l; mpz_lcm(l.get_mpz_t(), d.get_mpz_t(), x.second.get_den_mpz_t()); d = l; }
    RP b = a * RQ(d); g = b.icont(); if (b.t.rbegin()->second < 0) g = -g; return b * (RQ(1) / RQ(g));
}
// gcd over the coefficient field, normalised by prim()
inline RP fgcd(const RP& a0, const RP& b0) {
    if (a0.zero()) return prim(b0); if (b0.zero()) return prim(a0); int n = nvars(a0);
    if (a0.is_const() || b0.is_const()) return RP::c(1, n);
    int v = -1; for (int i = 0; i < n; ++i) if (a0.has(i) || b0.has(i)) { v = i; break; }
    auto cont = [&](const RP& a) { RP g; for (auto& c : a.coeffs(v)) if (!c.zero()) { g = fgcd(g, c); if (g.is_const() && !g.zero()) break; } return g; };
    if (!a0.has(v)) return fgcd(a0, cont(b0)); if (!b0.has(v)) return fgcd(cont(a0), b0);
    RP ca = cont(a0), cb = cont(b0), a = prim(exq(a0, ca)), b = prim(exq(b0, cb)), c = fgcd(ca, cb);
    if (a.deg(v) < b.deg(v)) std::swap(a, b);
    while (!b.zero() && b.has(v)) {
        RP r = a, l = b.lc(v); int64_t e = b.deg(v);
        while (!r.zero() && r.deg(v) >= e) { RP lr = r.lc(v); int64_t k = r.deg(v) - e; r = r * l - (b * lr).shift(v, k); if (!r.zero()) r = prim(r); }
        a = b; if (!r.zero() && r.has(v)) { r = prim(exq(r, cont(r))); } b = r;
    }
    RP g = b.zero() ? prim(exq(a, cont(a))) : RP::c(1, n);
    return prim(g * c);
}
// gcd over Z (content included), positive leading coefficient
inline RP zgcd(const RP& a, const RP& b) { if (a.zero() && b.zero()) return RP(); RP g = fgcd(a, b); return g * RQ(ref::zgcd(a.icont(), b.icont())); }
inline bool assoc(const RP& a, const RP& b) { return MOD ? prim(a) == prim(b) : a == b || a == -b; }
inline bool sqfree(const RP& a) { // over the field of fractions; characteristic 0
    RP g = prim(a); int n = nvars(a); for (int i = 0; i < n; ++i) if (a.has(i)) g = fgcd(g, a.diff(i)); return g.is_const(); }
// determinant by fraction-free elimination
inline RP det(std::vector<std::vector<RP>> M, int nv) {
    int n = M.size(); RP prev = RP::c(1, nv); bool neg = false;
    for (int k = 0; k < n; ++k) {
        int p = k; while (p < n && M[p][k].zero()) ++p; if (p == n) return RP(); if (p != k) { std::swap(M[p], M[k]); neg = !neg; }
        for (int i = k + 1; i < n; ++i) { for (int j = k + 1; j < n; ++j) M[i][j] = exq(M[k][k] * M[i][j] - M[i][k] * M[k][j], prev); M[i][k] = RP(); }
        prev = M[k][k];
    }
    return n ? (neg ? -M[n - 1][n - 1] : M[n - 1][n - 1]) : RP::c(1, nv);
}
inline RP det_c(const std::vector<std::vector<RP>>& M, int nv) { return det(M, nv); }
} // namespace rp
