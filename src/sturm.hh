#pragma once
// Reference for real roots: exact Sturm sequences over the integers (GMP), independent of the library.
#include "algebra.hh"
namespace st {
using rp::RP; using rp::RZ; using rp::RQ; typedef std::vector<RZ> ZP; // ascending coefficients, no trailing zero
inline void trim(ZP& a) { while (!a.empty() && a.back() == 0) a.pop_back(); }
inline ZP prim(ZP a) { RZ g = 0; for (auto& c : a) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), c.get_mpz_t()); if (g > 1) for (auto& c : a) c /= g; return a; }
inline ZP mul(const ZP& a, const ZP& b) { if (a.empty() || b.empty()) return {}; ZP r(a.size() + b.size() - 1, RZ(0)); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return r; }
inline ZP der(const ZP& a) { ZP r; for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * RZ((unsigned long)i)); trim(r); return r; }
// positive multiple of the remainder of a by b
inline ZP rem(ZP a, const ZP& b) { RZ l = b.back(); bool neg = l < 0; RZ al = abs(l); while (a.size() >= b.size()) { RZ c = a.back(); if (neg) c = -c; size_t s = a.size() - b.size(); for (auto& x : a) x *= al; for (size_t i = 0; i < b.size(); ++i) a[s + i] -= c * b[i]; if (a.back() != 0) vh::fail("reference: rem"); trim(a); } return prim(a); }
inline ZP gcd(ZP a, ZP b) { a = prim(a); b = prim(b); while (!b.empty()) { ZP r = rem(a, b); a = b; b = r; } if (!a.empty() && a.back() < 0) for (auto& c : a) c = -c; return a; }
inline ZP quo(ZP a, const ZP& b) { // b divides a over Q; result primitive up to sign
    ZP q(a.size() - b.size() + 1, RZ(0)); while (a.size() >= b.size()) { size_t s = a.size() - b.size(); RZ c = a.back(), l = b.back(); for (auto& x : q) x *= l; for (auto& x : a) x *= l; q[s] += c; for (size_t i = 0; i < b.size(); ++i) a[s + i] -= c * b[i]; trim(a); } if (!a.empty()) vh::fail("reference: inexact quo"); trim(q); return prim(q); }
inline ZP sqf(const ZP& a) { if (a.size() <= 2) return prim(a); ZP g = gcd(a, der(a)); return g.size() == 1 ? prim(a) : quo(a, g); }
inline RQ eval(const ZP& a, const RQ& x) { RQ r = 0; for (size_t i = a.size(); i--;) r = r * x + RQ(a[i]); return r; }
inline int sgn_at(const ZP& a, const RQ& x) { RZ n = x.get_num(), d = x.get_den(), r = 0, dp = 1; for (size_t i = a.size(); i--;) { r = r * n + a[i] * dp; dp *= d; } return sgn(r); }
struct Sturm { // of a squarefree (or any nonzero) polynomial; counts distinct roots
    std::vector<ZP> s; ZP p;
    Sturm() {}
    Sturm(const ZP& a) : p(a) { s.push_back(prim(a)); ZP b = der(a); if (!b.empty()) { s.push_back(prim(b)); while (s.back().size() > 1) { ZP r = rem(s[s.size() - 2], s.back()); if (r.empty()) break; for (auto& c : r) c = -c; s.push_back(r); } } }
    static int vars(const std::vector<int>& v) { int n = 0, l = 0; for (int x : v) if (x) { if (l && x != l) ++n; l = x; } return n; }
    int at(const RQ& x) const { std::vector<int> v; for (auto& a : s) v.push_back(sgn_at(a, x)); return vars(v); }
    int minf() const { std::vector<int> v; for (auto& a : s) v.push_back(a.size() % 2 ? sgn(a.back()) : -sgn(a.back())); return vars(v); }
    int pinf() const { std::vector<int> v; for (auto& a : s) v.push_back(sgn(a.back())); return vars(v); }
    int total() const { return minf() - pinf(); }
    int upto(const RQ& x) const { return minf() - at(x); }                 // distinct roots in (-inf, x]; p squarefree
    int below(const RQ& x) const { return upto(x) - (sgn_at(p, x) == 0); } // distinct roots in (-inf, x)
};
struct Iso { RQ l, r; };   // l == r: exact; else the only root in (l, r), none at the ends
inline std::vector<Iso> isolate(const Sturm& S) {
    std::vector<Iso> out; if (S.p.size() <= 1) return out; RZ B = 1; for (auto& c : S.p) if (abs(c) > B) B = abs(c); B = B / abs(S.p.back()) + 2;
    std::function<void(RQ, RQ)> rec = [&](RQ l, RQ r) { int n = S.below(r) - S.upto(l); if (n == 0) return; if (n == 1 && sgn_at(S.p, l) && sgn_at(S.p, r)) { out.push_back({l, r}); return; } RQ m = (l + r) / 2; rec(l, m); if (!sgn_at(S.p, m)) out.push_back({m, m}); rec(m, r); };
    rec(RQ(-B), RQ(B)); return out;
}
inline ZP zp(const RP& p) { ZP r; for (auto& [m, q] : p.t) { if (r.size() <= (size_t)m[0]) r.resize(m[0] + 1, RZ(0)); r[m[0]] = q.get_num(); } return r; }
}
