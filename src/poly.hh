// Reference polynomials (exponent vector -> exact rational, or residue when P>0)
// and faithful conversion to / checked conversion from library polynomials.
#pragma once
#include "ref.hh"
#include "harness.hh"
#include <clpoly/clpoly.hh>
#include <map>
#include <memory>
namespace rp {
using namespace clpoly;
typedef ref::Z RZ; typedef ref::Q RQ;
typedef std::vector<int64_t> Mon;
inline uint64_t MOD = 0;                 // 0: characteristic 0, else prime modulus of the reference
inline std::vector<variable> X;          // X[i] has index i, created in this order
inline std::map<size_t, int> IDX;
inline void make_vars(int n) { for (int i = (int)X.size(); i < n; ++i) { char b[16]; snprintf(b, 16, "x%d", i); X.push_back(variable::get_variable(b)); IDX[X[i].serial()] = i; } }

inline RQ norm(const RQ& q) {
    if (!MOD) return q;
    RZ p; mpz_set_ui(p.get_mpz_t(), MOD);
    RZ n = ref::fdiv_r(q.get_num(), p), d = ref::fdiv_r(q.get_den(), p), i;
    if (d == 1) return RQ(n);
    if (!mpz_invert(i.get_mpz_t(), d.get_mpz_t(), p.get_mpz_t())) vh::fail("reference: division by 0 mod p");
    return RQ(ref::fdiv_r(RZ(n * i), p));
}
struct RP {
    std::map<Mon, RQ> t;
    RP() {}
    RP(std::initializer_list<std::pair<Mon, RQ>> l) { for (auto& x : l) add(x.first, x.second); }
    static RP c(const RQ& q, int n) { RP r; r.add(Mon(n, 0), q); return r; }
    static RP x(int i, int n, int64_t e = 1) { RP r; Mon m(n, 0); m[i] = e; r.add(m, 1); return r; }
    void add(const Mon& m, const RQ& q) { if (q == 0) return; auto [it, f] = t.emplace(m, RQ(0)); it->second = norm(it->second + q); if (it->second == 0) t.erase(it); }
    bool zero() const { return t.empty(); }
    bool is_const() const { if (t.empty()) return true; if (t.size() > 1) return false; for (auto e : t.begin()->first) if (e) return false; return true; }
    bool operator==(const RP& o) const { return t == o.t; }
    bool operator!=(const RP& o) const { return t != o.t; }
    bool operator<(const RP& o) const { return t < o.t; }
    RP operator+(const RP& o) const { RP r = *this; for (auto& [m, q] : o.t) r.add(m, q); return r; }
    RP operator-(const RP& o) const { RP r = *this; for (auto& [m, q] : o.t) r.add(m, -q); return r; }
    RP operator-() const { RP r; for (auto& [m, q] : t) r.add(m, -q); return r; }
    RP operator*(const RP& o) const {
        RP r; Mon s;
        for (auto& [m, q] : t) for (auto& [n, w] : o.t) { s = m; for (size_t i = 0; i < s.size(); ++i) s[i] += n[i]; r.add(s, q * w); }
        return r;
    }
    RP operator*(const RQ& k) const { RP r; for (auto& [m, q] : t) r.add(m, q * k); return r; }
    int64_t deg(int v) const { int64_t d = 0; for (auto& [m, q] : t) d = std::max(d, m[v]); return d; }
    int64_t tdeg() const { int64_t d = 0; for (auto& [m, q] : t) { int64_t s = 0; for (auto e : m) s += e; d = std::max(d, s); } return d; }
    std::vector<RP> coeffs(int v) const { std::vector<RP> r(deg(v) + 1); for (auto& [m, q] : t) { Mon s = m; int64_t e = s[v]; s[v] = 0; r[e].add(s, q); } return r; }
    RP lc(int v) const { return coeffs(v).back(); }
    RP shift(int v, int64_t e) const { RP r; for (auto& [m, q] : t) { Mon s = m; s[v] += e; r.t[s] = q; } return r; }
    RP diff(int v) const { RP r; for (auto& [m, q] : t) if (m[v]) { Mon s = m; --s[v]; r.add(s, q * RQ(m[v])); } return r; }
    RP subst(int v, const RQ& c) const { RP r; for (auto& [m, q] : t) { Mon s = m; s[v] = 0; RQ w = q; for (int64_t e = 0; e < m[v]; ++e) w *= c; r.add(s, w); } return r; }
    RQ cst() const { return t.empty() ? RQ(0) : t.begin()->second; }
    RP red() const { RP r; for (auto& [m, q] : t) r.add(m, q); return r; }   // reduce under the current MOD
    bool has(int v) const { for (auto& [m, q] : t) if (m[v]) return true; return false; }
    // content over Z (positive), 0 for 0; requires integer coefficients
    RZ icont() const { RZ g = 0; for (auto& [m, q] : t) g = ref::zgcd(g, q.get_num()); return g; }
    std::string str() const {
        if (t.empty()) return "0";
        std::string s;
        for (auto i = t.rbegin(); i != t.rend(); ++i) {
            if (!s.empty()) s += "+"; std::string c = i->second.get_str(); s += c[0] == '-' ? "(" + c + ")" : c;
            for (size_t k = 0; k < i->first.size(); ++k) if (i->first[k]) s += "*x" + std::to_string(k) + (i->first[k] > 1 ? "^" + std::to_string(i->first[k]) : "");
        }
        return s;
    }
};
inline RP rpow(const RP& a, int e, int n) { RP r = RP::c(1, n); for (int i = 0; i < e; ++i) r = r * a; return r; }
inline std::ostream& operator<<(std::ostream& o, const RP& p) { return o << p.str(); }

// --- reference term orders
struct Ord {
    bool graded = false; std::vector<int> prio;   // variable indices, most significant first
    // a strictly greater than b
    bool gt(const Mon& a, const Mon& b) const {
        if (graded) { int64_t s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] - b[i]; if (s) return s > 0; }
        for (int v : prio) if (v < (int)a.size() && a[v] != b[v]) return a[v] > b[v];
        return false;
    }
};
inline std::vector<int> all_idx() { std::vector<int> r; for (size_t i = 0; i < X.size(); ++i) r.push_back(i); std::sort(r.begin(), r.end(), [](int a, int b) { return X[a].serial() < X[b].serial(); }); return r; }
inline Ord ord_of(const grlex&) { return {true, all_idx()}; }
inline Ord ord_of(const lex&) { return {false, all_idx()}; }
inline std::vector<int> custom_idx(const custom_var_order& c) {
    auto r = all_idx(); std::stable_sort(r.begin(), r.end(), [&](int a, int b) {
        auto ia = c.v_map.find(X[a]), ib = c.v_map.find(X[b]); int64_t pa = ia == c.v_map.end() ? INT64_MAX : ia->second, pb = ib == c.v_map.end() ? INT64_MAX : ib->second; return pa < pb; });
    return r;
}
inline Ord ord_of(const lex_<custom_var_order>& c) { return {false, custom_idx(c.comp)}; }
inline Ord ord_of(const grlex_<custom_var_order>& c) { return {true, custom_idx(c.comp)}; }
inline std::vector<int> uni_idx(const univariate_order& u) { auto r = all_idx(); std::stable_sort(r.begin(), r.end(), [&](int a, int b) { return (X[a] == u.v) > (X[b] == u.v); }); return r; }
inline Ord ord_of(const univariate_priority_order& c) { return {false, uni_idx(c.comp)}; }
inline Ord ord_of(const grlex_<univariate_order>& c) { return {true, uni_idx(c.comp)}; }

// --- coefficients
inline RZ zref(const ZZ& z) { std::ostringstream o; o << z; std::string s = o.str(); if (s.size() < 19) return RZ((long)strtol(s.c_str(), 0, 10)); return RZ(s); }
inline ZZ zlib(const RZ& z) { return z.fits_slong_p() ? ZZ((int64_t)z.get_si()) : ZZ(z.get_str()); }
template <class Tc> Tc clib(const RQ& q);
template <> inline ZZ clib<ZZ>(const RQ& q) { if (q.get_den() != 1) vh::fail("reference: non-integer coefficient"); return zlib(q.get_num()); }
template <> inline QQ clib<QQ>(const RQ& q) { return QQ(zlib(q.get_num()), zlib(q.get_den())); }
template <> inline Zp clib<Zp>(const RQ& q) { RQ r = norm(q); return Zp(mpz_get_ui(r.get_num_mpz_t()), MOD); }
inline RQ cref(const ZZ& z) { return RQ(zref(z)); }
inline RQ cref(const QQ& q) { return RQ(zref(q.get_num()), zref(q.get_den())); }
inline RQ cref(const Zp& z) { if (MOD && (z.prime() != MOD || z.number() >= MOD)) vh::fail("coefficient is not a reduced residue of the right field"); RZ r; mpz_set_ui(r.get_mpz_t(), z.number()); return RQ(r); }

// --- multivariate conversion
template <class comp> basic_monomial<comp> mono(const Mon& m, const comp* c) {
    basic_monomial<comp> r(c); for (size_t i = 0; i < m.size(); ++i) if (m[i]) r.push_back({X[i], m[i]}); r.normalization(); return r;
}
template <class comp> Mon mref(const basic_monomial<comp>& m, int n, const Ord* o = nullptr) {
    Mon r(n, 0); int64_t d = 0; int lastpos = -1;
    for (auto& i : m) {
        auto it = IDX.find(i.first.serial()); if (it == IDX.end() || it->second >= n) vh::fail("monomial mentions an unexpected variable: " + m.str());
        CHECK(i.second != 0, "monomial stores exponent 0: " << m.str());
        CHECK(r[it->second] == 0, "monomial repeats a variable: " << m.str());
        r[it->second] = i.second; d += i.second;
        if (o) { int pos = std::find(o->prio.begin(), o->prio.end(), it->second) - o->prio.begin(); CHECK(pos > lastpos, "monomial variables out of order: " << m.str()); lastpos = pos; }
    }
    CHECK(d == m.deg(), "cached degree " << m.deg() << " of monomial " << m.str() << " is not " << d);
    return r;
}
template <class P> struct is_upoly : std::false_type {};
template <class Tc> struct is_upoly<upolynomial_<Tc>> : std::true_type {};
template <class Tc, class comp> polynomial_<Tc, comp> lib(const RP& p, const comp* c) {
    polynomial_<Tc, comp> r(c);
    Ord o = ord_of(*c); std::vector<const std::pair<const Mon, RQ>*> v; for (auto& x : p.t) v.push_back(&x);
    std::sort(v.begin(), v.end(), [&](auto* a, auto* b) { return o.gt(a->first, b->first); });
    for (auto* x : v) r.push_back({mono(x->first, c), clib<Tc>(x->second)});
    return r;
}
template <class Tc> polynomial_<Tc> lib(const RP& p) { return lib<Tc, grlex>(p, &grlex::init); }
// checked: canonical form is part of every comparison
template <class Tc, class comp> RP from(const polynomial_<Tc, comp>& p, int n, const char* what = "result") {
    Ord o = ord_of(p.comp()); RP r; const Mon* last = nullptr; Mon lm;
    for (auto& i : p) {
        CHECK(comp_consistent(i.first.comp(), p.comp()), what << ": a term carries a different monomial order than its polynomial");
        Mon m = mref(i.first, n, &o); RQ q = cref(i.second);
        CHECK(q != 0, what << " stores a zero coefficient");
        if (last) CHECK(o.gt(lm, m), what << " is not strictly descending in its order");
        r.t[m] = q; lm = m; last = &lm;
    }
    return r;
}
template <class Tc> upolynomial_<Tc> ulib(const RP& p) { upolynomial_<Tc> r; for (auto i = p.t.rbegin(); i != p.t.rend(); ++i) r.push_back({umonomial(i->first[0]), clib<Tc>(i->second)}); return r; }
template <class Tc> RP from(const upolynomial_<Tc>& p, const char* what = "result") {
    RP r; int64_t last = INT64_MAX;
    for (auto& i : p) { RQ q = cref(i.second); CHECK(q != 0, what << " stores a zero coefficient"); CHECK(i.first.deg() < last && i.first.deg() >= 0, what << " is not strictly descending"); last = i.first.deg(); r.t[Mon{last}] = q; }
    return r;
}
template <class Tc> RP from(const upolynomial_<Tc>& p, int, const char* what = "result") { return from(p, what); }

// --- catalogues
inline std::vector<Mon> monos_box(std::vector<int> hi) { std::vector<Mon> r{{}}; for (int h : hi) { std::vector<Mon> s; for (auto& m : r) for (int e = 0; e <= h; ++e) { auto k = m; k.push_back(e); s.push_back(k); } r = s; } return r; }
inline std::vector<Mon> monos_deg(int n, int d) { std::vector<Mon> r; for (auto& m : monos_box(std::vector<int>(n, d))) { int64_t s = 0; for (auto e : m) s += e; if (s <= d) r.push_back(m); } return r; }
// all polynomials with at most k terms from `ms`, each coefficient from cs
inline std::vector<RP> sparse(const std::vector<Mon>& ms, const std::vector<RQ>& cs, int k) {
    std::vector<RP> out; RP cur;
    std::function<void(size_t, int)> rec = [&](size_t from, int left) {
        out.push_back(cur); if (!left) return;
        for (size_t i = from; i < ms.size(); ++i) for (auto& c : cs) { cur.t[ms[i]] = c; rec(i + 1, left - 1); cur.t.erase(ms[i]); }
    };
    rec(0, k); return out;
}
// all polynomials with support inside ms, coefficients from cs (0 included or not as given)
inline std::vector<RP> dense(const std::vector<Mon>& ms, const std::vector<RQ>& cs) {
    std::vector<RP> out; uint64_t n = vh::ipow(cs.size(), ms.size());
    for (uint64_t i = 0; i < n; ++i) { RP p; uint64_t v = i; for (auto& m : ms) { auto& c = cs[v % cs.size()]; v /= cs.size(); if (c != 0) p.t[m] = c; } out.push_back(p); }
    return out;
}
inline std::vector<RQ> ints(int lo, int hi) { std::vector<RQ> r; for (int i = lo; i <= hi; ++i) r.push_back(i); return r; }
inline std::vector<RP> uniq(std::vector<RP> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
} // namespace rp
