// Reference Groebner machinery: rational polynomials as sorted term lists, plain Buchberger without criteria.
#pragma once
#include "algebra.hh"
namespace gb {
using namespace rp; using namespace std; typedef vector<pair<Mon, RQ>> G1; // terms in descending order
inline G1 sorted(const RP& p, const Ord& o) { G1 r(p.t.begin(), p.t.end()); sort(r.begin(), r.end(), [&](auto& a, auto& b) { return o.gt(a.first, b.first); }); return r; }
inline RP plain(const G1& a) { RP r; for (auto& x : a) r.t[x.first] = x.second; return r; }
inline bool div(const Mon& a, const Mon& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] < b[i]) return false; return true; }
inline Mon sub(const Mon& a, const Mon& b) { Mon r = a; for (size_t i = 0; i < a.size(); ++i) r[i] -= b[i]; return r; }
inline Mon add(const Mon& a, const Mon& b) { Mon r = a; for (size_t i = 0; i < a.size(); ++i) r[i] += b[i]; return r; }
inline Mon lcmm(const Mon& a, const Mon& b) { Mon r = a; for (size_t i = 0; i < a.size(); ++i) r[i] = max(a[i], b[i]); return r; }
// a + c * x^m * b
inline G1 axpy(const G1& a, const RQ& c, const Mon& m, const G1& b, const Ord& o) { G1 r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size()) { r.push_back(a[i++]); continue; } Mon bm = add(b[j].first, m); if (i < a.size() && o.gt(a[i].first, bm)) r.push_back(a[i++]); else if (i < a.size() && a[i].first == bm) { RQ v = a[i].second + c * b[j].second; if (v != 0) r.push_back({bm, v}); ++i; ++j; } else { r.push_back({bm, c * b[j].second}); ++j; } } return r; }
inline G1 nf(G1 h, const vector<G1>& G, const Ord& o) { G1 r; while (!h.empty()) { bool d = false; for (auto& g : G) if (!g.empty() && div(h[0].first, g[0].first)) { h = axpy(h, -(h[0].second / g[0].second), sub(h[0].first, g[0].first), g, o); d = true; break; } if (!d) { r.push_back(h[0]); h.erase(h.begin()); } } return r; }
inline G1 spol(const G1& f, const G1& g, const Ord& o) { Mon L = lcmm(f[0].first, g[0].first); G1 a = axpy({}, RQ(1) / f[0].second, sub(L, f[0].first), f, o); return axpy(a, RQ(-1) / g[0].second, sub(L, g[0].first), g, o); }
inline void monic(G1& a) { if (a.empty()) return; RQ c = a[0].second; for (auto& x : a) x.second /= c; }
// reduced Groebner basis: plain Buchberger without any elimination criterion
inline vector<G1> refgb(const vector<G1>& F, const Ord& o, uint64_t& work) {
    vector<G1> G; for (auto f : F) { f = nf(f, G, o); if (!f.empty()) { monic(f); G.push_back(f); } } multimap<int64_t, pair<size_t, size_t>> Q; auto put = [&](size_t k) { for (size_t i = 0; i < k; ++i) { Mon L = lcmm(G[i][0].first, G[k][0].first); int64_t d = 0; for (auto e : L) d += e; Q.insert({d, {i, k}}); } }; for (size_t k = 0; k < G.size(); ++k) put(k);
    while (!Q.empty()) { auto pr = Q.begin()->second; Q.erase(Q.begin()); if (++work > 20000) vh::fail("reference: too many pairs"); G1 h = nf(spol(G[pr.first], G[pr.second], o), G, o); if (h.empty()) continue; monic(h); if (h.size() == 1 && h[0].first == Mon(h[0].first.size(), 0)) return {h}; G.push_back(h); put(G.size() - 1); }
    vector<G1> R; for (size_t i = 0; i < G.size(); ++i) { bool red = false; for (size_t j = 0; j < G.size() && !red; ++j) red = j != i && div(G[i][0].first, G[j][0].first) && (G[i][0].first != G[j][0].first || j < i); if (!red) R.push_back(G[i]); }
    for (size_t i = 0; i < R.size(); ++i) { vector<G1> oth; for (size_t j = 0; j < R.size(); ++j) if (j != i) oth.push_back(R[j]); R[i] = nf(R[i], oth, o); monic(R[i]); } sort(R.begin(), R.end()); return R; }
}
