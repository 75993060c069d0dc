// C21: characteristic sets and triangular decompositions against their definitions; zero sets are compared exactly over the complex
// numbers with an independent Groebner computation (a constructible set is empty iff 1 is in its ideal, inequations by a new variable).
#include "gb.hh"
#include <clpoly/charset.hh>
#include <deque>
using namespace rp; using namespace std; using namespace gb; typedef lex_<custom_var_order> CO; typedef polynomial_<ZZ, CO> LP; typedef vector<RP> Sys; typedef vector<Sys> Dec;
static Ord& grl(int n) { static Ord o[8]; static bool done[8]; if (!done[n]) { o[n] = ord_of(grlex::init); done[n] = true; } return o[n]; }
static RP ext(const RP& p, int n) { RP r; for (auto& t : p.t) { Mon m = t.first; m.resize(n + 1, 0); r.t[m] = t.second; } return r; }
static map<pair<Sys, RP>, bool> memo;
// V(E) minus V(h) empty?
static bool empty_(Sys E, RP h, int n) { E.erase(remove_if(E.begin(), E.end(), [](auto& p) { return p.zero(); }), E.end()); for (auto& p : E) p = prim(p); sort(E.begin(), E.end(), [](auto& a, auto& b) { return a.t < b.t; }); E.erase(unique(E.begin(), E.end()), E.end()); if (h.zero()) return true; for (auto& p : E) if (p.is_const()) return true; auto& o = grl(n + 1); vector<G1> F; for (auto& p : E) F.push_back(sorted(ext(p, n), o)); RP r = RP::x(n, n + 1) * ext(h, n) - RP::c(1, n + 1); F.push_back(sorted(r, o)); uint64_t w = 0; auto G = refgb(F, o, w); vh::aux(0); return G.size() == 1 && G[0].size() == 1 && G[0][0].first == Mon(n + 1, 0); }
struct Order { vector<int> perm, pos; CO* lib; };   // perm[0] is the highest variable
static int mainvar(const RP& p, const Order& o) { for (int v : o.perm) if (p.has(v)) return v; return -1; }
static RP init(const RP& p, const Order& o) { int v = mainvar(p, o); return v < 0 ? p : p.lc(v); }
static string show(const Sys& L) { string s = "{"; for (auto& a : L) s += a.str() + "; "; return s + "}"; }
static string show(const Dec& L) { string s; for (auto& a : L) s += show(a) + " "; return s; }
static RP prem_(RP f, const RP& g, int v) { int64_t d = g.deg(v); RP l = g.lc(v); while (!f.zero() && f.deg(v) >= d) { int64_t e = f.deg(v); RP c = f.lc(v); f = f * l - g * c * rpow(RP::x(v, nvars(g)), e - d, nvars(g)); } return f; }
static RP prem_(RP f, const Sys& T, const Order& o) { for (size_t i = T.size(); i-- > 0;) { int v = mainvar(T[i], o); if (v >= 0) f = prem_(f, T[i], v); } return f; }
static bool reduced(const RP& f, const RP& g, const Order& o) { if (f.zero()) return true; int v = mainvar(g, o); if (v < 0) return false; return f.deg(v) < g.deg(v); }
static int rank_(const RP& f, const RP& g, const Order& o) { int a = mainvar(f, o), b = mainvar(g, o); if (a < 0 || b < 0) return a < 0 && b < 0 ? 0 : a < 0 ? -1 : 1; if (a != b) return o.pos[a] > o.pos[b] ? -1 : 1; int64_t x = f.deg(a), y = g.deg(a); return x < y ? -1 : x > y ? 1 : 0; }
static bool ascending(const Sys& B, const Order& o) { if (B.size() == 1 && !B[0].zero()) return true; for (size_t i = 0; i < B.size(); ++i) { if (mainvar(B[i], o) < 0) return false; for (size_t j = 0; j < i; ++j) if (rank_(B[j], B[i], o) >= 0 || mainvar(B[j], o) == mainvar(B[i], o) || !reduced(B[i], B[j], o)) return false; } return true; }
static int setrank(const Sys& A, const Sys& B, const Order& o) { for (size_t i = 0; i < A.size() && i < B.size(); ++i) if (int c = rank_(A[i], B[i], o)) return c; return A.size() > B.size() ? -1 : A.size() < B.size() ? 1 : 0; }
static RP sylv(const RP& f, const RP& g, int v, int n) { int64_t a = f.deg(v), b = g.deg(v); if (f.zero() || g.zero()) return RP(); if (a + b == 0) return RP::c(1, n); auto F = f.coeffs(v), G = g.coeffs(v); vector<vector<RP>> M(a + b, vector<RP>(a + b)); for (int64_t i = 0; i < b; ++i) for (int64_t k = 0; k <= a; ++k) M[i][i + k] = F[a - k]; for (int64_t i = 0; i < a; ++i) for (int64_t k = 0; k <= b; ++k) M[b + i][i + k] = G[b - k]; return det(M, n); }
static bool iter_nonzero(RP r, const Sys& T, size_t k, const Order& o, int n) { for (size_t i = k; i-- > 0 && !r.zero();) r = sylv(r, T[i], mainvar(T[i], o), n); return !r.zero(); }
static bool isreg(const Sys& T, const Order& o, int n) { for (size_t k = 1; k < T.size(); ++k) if (!iter_nonzero(init(T[k], o), T, k, o, n)) return false; return true; }
// a piece {E = 0, h != 0}
struct Piece { Sys E; RP h; };
static bool covered(const Sys& E, const RP& h, const vector<Piece>& C, size_t j, int n) { if (empty_(E, h, n)) return true; if (j == C.size()) return false; Sys F = E; for (auto& t : C[j].E) { if (!covered(F, h * t, C, j + 1, n)) return false; F.push_back(t); } F.push_back(C[j].h); return covered(F, h, C, j + 1, n); }
static bool within(const Piece& a, const Sys& P, int n) { for (auto& p : P) if (!empty_(a.E, a.h * p, n)) return false; return true; }
struct Run {
    const Order& o; int n; Run(const Order& o_, int n_) : o(o_), n(n_) {}
    LP L(const RP& p) const { return lib<ZZ, CO>(p, o.lib); } vector<LP> L(const Sys& S) const { vector<LP> r; for (auto& p : S) r.push_back(L(p)); return r; }
    Sys B(const vector<LP>& S, const string& w) const { Sys r; for (auto& p : S) r.push_back(from(p, n, w.c_str())); return r; } Dec D(const vector<vector<LP>>& S, const string& w) const { Dec r; for (auto& p : S) r.push_back(B(p, w)); return r; }
    string ord() const { string s = "order "; for (int v : o.perm) s += "x" + to_string(v) + ">"; s.back() = ' '; return s; }
    Piece piece(const Sys& T) const { RP h = RP::c(1, n); for (auto& t : T) h = h * init(t, o); return {T, h}; }
    void ranks(const RP& a, const RP& b) const { auto f = L(a), g = L(b); string w = ord() + a.str() + " / " + b.str(); int r = rank_(a, b, o); CHECK(rankcompare(f, g) == (r < 0), w << ": rankcompare"); CHECK(is_reduced(f, g) == reduced(a, b, o), w << ": is_reduced gives " << is_reduced(f, g)); vh::step(2); }
    void basic(const Sys& P) const { string w = ord() + "basset" + show(P); auto A = L(P); Sys C = B(basset<ZZ>(A.begin(), A.end()), w); vh::step(); Sys nz; for (auto& p : P) if (!p.zero()) nz.push_back(p); w += " = " + show(C); CHECK(C.empty() == nz.empty(), w); if (C.empty()) return; for (auto& c : C) CHECK(find(P.begin(), P.end(), c) != P.end(), w << " is not a subset"); CHECK(ascending(C, o), w << " is not ascending"); vector<int> idx(nz.size()); for (uint32_t m = 1; m < (1u << nz.size()); ++m) { Sys S; for (size_t i = 0; i < nz.size(); ++i) if (m >> i & 1) S.push_back(nz[i]); sort(S.begin(), S.end(), [&](auto& a, auto& b) { return rank_(a, b, o) < 0; }); if (ascending(S, o)) CHECK(setrank(S, C, o) >= 0, w << " but " << show(S) << " has lower rank"); } vh::outcome(show(C)); }
    void characteristic(const Sys& P) const { string w = ord() + "charset" + show(P); Sys C = B(charset(L(P)), w); vh::step(); w += " = " + show(C); Sys nz; for (auto& p : P) if (!p.zero()) nz.push_back(p); CHECK(C.empty() == nz.empty(), w); if (C.empty()) return; CHECK(ascending(C, o), w << " is not ascending"); auto& g = grl(n); vector<G1> F; for (auto& p : nz) F.push_back(sorted(p, g)); uint64_t wk = 0; auto G = refgb(F, g, wk); for (auto& c : C) CHECK(nf(sorted(c, g), G, g).empty(), w << ": " << c << " is not in the ideal"); for (auto& p : P) CHECK(mainvar(C[0], o) < 0 || prem_(p, C, o).zero(), w << ": " << p << " has the pseudo remainder " << prem_(p, C, o)); vh::outcome(show(C)); }
    void equal_zeros(const Sys& P, const Dec& T, const string& w) const { vector<Piece> C; for (auto& t : T) C.push_back(piece(t)); for (size_t i = 0; i < T.size(); ++i) CHECK(within(C[i], P, n), w << ": zeros of " << show(T[i]) << " (off its initials) are not zeros of the system"); CHECK(covered(P, RP::c(1, n), C, 0, n), w << ": a zero of the system is lost"); }
    void triangular(const Sys& T, const string& w) const { for (size_t i = 0; i < T.size(); ++i) { CHECK(mainvar(T[i], o) >= 0, w << ": constant in " << show(T)); if (i) CHECK(o.pos[mainvar(T[i - 1], o)] > o.pos[mainvar(T[i], o)], w << ": " << show(T) << " is not triangular"); } }
    void wu(const Sys& P) const { string w = ord() + "Wucharset" + show(P); Dec T = D(Wucharset(L(P)), w); vh::step(); w += " = " + show(T); for (auto& t : T) triangular(t, w); equal_zeros(P, T, w); vh::outcome(show(T)); }
    void reg(const Sys& T) const { string w = ord() + "is_regular" + show(T); CHECK(is_regular(L(T)) == isreg(T, o, n), w << " should be " << isreg(T, o, n)); vh::step(); }
    void split(const Sys& T, const RP& f, bool r) const { string w = ord() + (r ? "rsd" : "wrsd") + show(T) + ", " + f.str(); auto W = r ? rsd(L(T), L(f)) : wrsd(L(T), L(f)); Dec H = D(W.first, w), G = D(W.second, w); vh::step(); w += " = zero " + show(H) + " nonzero " + show(G); for (auto* X : {&H, &G}) for (auto& t : *X) { triangular(t, w); CHECK(t.size() == T.size(), w << ": component of another dimension"); CHECK(isreg(t, o, n), w << ": " << show(t) << " is not regular"); }
        Sys Tf = T; Tf.push_back(f); vector<Piece> CH, CG; for (auto& t : H) { CH.push_back({t, RP::c(1, n)}); CHECK(within(CH.back(), Tf, n), w << ": wrong zero component " << show(t)); } for (auto& t : G) { CG.push_back({t, RP::c(1, n)}); CHECK(within(CG.back(), T, n), w << ": wrong nonzero component " << show(t)); Sys tf = t; tf.push_back(f); CHECK(empty_(tf, RP::c(1, n), n), w << ": f vanishes on a zero of " << show(t)); } CHECK(covered(Tf, RP::c(1, n), CH, 0, n), w << ": a common zero is lost"); CHECK(covered(T, f, CG, 0, n), w << ": a zero of T off f is lost"); vh::outcome(w); }
    void zd(const Sys& P) const { string w = ord() + "GRDforZD" + show(P); Dec T = D(GRDforZD(L(P)), w); vh::step(); w += " = " + show(T); vector<Piece> C; for (auto& t : T) { triangular(t, w); CHECK((int)t.size() == n && isreg(t, o, n), w << ": " << show(t) << " is not a zero-dimensional regular chain"); C.push_back({t, RP::c(1, n)}); CHECK(within(C.back(), P, n), w << ": zeros of " << show(t) << " are not zeros of the system"); } CHECK(covered(P, RP::c(1, n), C, 0, n), w << ": a zero of the system is lost"); vh::outcome(w); }
    bool sqf_chain(const Sys& T) const { for (size_t k = 0; k < T.size(); ++k) { int v = mainvar(T[k], o); RP d = T[k].deg(v) < 2 ? RP::c(1, n) : sylv(T[k], T[k].diff(v), v, n); if (!iter_nonzero(d, T, k, o, n)) return false; } return true; }
    void squarefree_(const Sys& T) const { string w = ord() + "RCtoSqrfree" + show(T); Dec R = D(RCtoSqrfree(L(T)), w); vh::step(); w += " = " + show(R); vector<Piece> C; for (auto& t : R) { triangular(t, w); CHECK((int)t.size() == n && isreg(t, o, n), w << ": " << show(t) << " is not a zero-dimensional regular chain"); CHECK(sqf_chain(t), w << ": " << show(t) << " is not squarefree"); C.push_back({t, RP::c(1, n)}); CHECK(within(C.back(), T, n), w << ": zeros of " << show(t) << " are not zeros of the chain"); } CHECK(covered(T, RP::c(1, n), C, 0, n), w << ": a zero is lost"); vh::outcome(w); }
    void chains(const Sys& T) const { string w = ord() + "ZDtoRC" + show(T); Dec R = D(ZDtoRC(L(T)), w); vh::step(); w += " = " + show(R); vector<Piece> C; for (auto& t : R) { triangular(t, w); CHECK((int)t.size() == n && isreg(t, o, n), w << ": " << show(t) << " is not a zero-dimensional regular chain"); C.push_back({t, RP::c(1, n)}); } Piece p = piece(T); for (auto& c : C) CHECK(within(c, T, n), w << ": zeros of " << show(c.E) << " are not zeros of the chain"); CHECK(covered(p.E, p.h, C, 0, n), w << ": a zero is lost"); vh::outcome(w); }
    // P = 0, g1 >= 0, g2 > 0, h != 0
    void semi(const Sys& P, const Sys& g1, const Sys& g2, const Sys& h) const { string w = ord() + "GRDforZDSAS" + show(P) + show(g1) + show(g2) + show(h); auto R = GRDforZDSAS(vector<vector<LP>>{L(P), L(g1), L(g2), L(h)}); vh::step(); RP off = RP::c(1, n); for (auto& q : g2) off = off * q; for (auto& q : h) off = off * q; vector<Piece> C; for (auto& r : R) { CHECK(r.size() == 4 && r[1].empty() && r[3].empty(), w << ": shape of the answer"); Sys t = B(r[0], w), s = B(r[2], w); w += " " + show(t) + " with " + show(s); triangular(t, w); CHECK((int)t.size() == n && isreg(t, o, n), w << ": not a zero-dimensional regular chain"); Piece p{t, RP::c(1, n)}; CHECK(within(p, P, n), w << ": zeros are not zeros of the system"); for (auto* X : {&g2, &h}) for (auto& q : *X) { Sys tq = t; tq.push_back(q); CHECK(empty_(tq, RP::c(1, n), n), w << ": " << q << " vanishes on a zero"); } for (auto& q : g2) CHECK(find(s.begin(), s.end(), q) != s.end(), w << ": " << q << " was dropped"); for (auto& q : s) CHECK(find(g1.begin(), g1.end(), q) != g1.end() || find(g2.begin(), g2.end(), q) != g2.end(), w << ": unknown condition " << q); for (auto& q : g1) { if (find(s.begin(), s.end(), q) != s.end()) { Sys tq = t; tq.push_back(q); CHECK(empty_(tq, RP::c(1, n), n), w << ": " << q << " vanishes but is listed as strict"); } else CHECK(empty_(t, q, n), w << ": " << q << " is neither zero nor listed"); } C.push_back(p); } CHECK(covered(P, off, C, 0, n), w << ": a zero is lost"); vh::outcome(w); }
};
static vector<RP> thin(const vector<RP>& A, size_t n) { if (A.size() <= n) return A; vector<RP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
static vector<RP> nonzero(vector<RP> A) { vector<RP> o; for (auto& a : A) if (!a.zero()) o.push_back(a); return uniq(o); }
static Dec lists(const vector<RP>& A, int k) { Dec v{{}}; for (int i = 0; i < k; ++i) { Dec w; for (auto& s : v) for (auto& a : A) { Sys t = s; t.push_back(a); w.push_back(t); } v = w; } return v; }
static Dec sets(const vector<RP>& A, int k) { Dec v; function<void(Sys, size_t)> rec = [&](Sys s, size_t i) { if ((int)s.size() == k) { v.push_back(s); return; } for (size_t j = i; j < A.size(); ++j) { Sys t = s; t.push_back(A[j]); rec(t, j + 1); } }; rec({}, 0); return v; }
static std::deque<Order> orders; static Order* mk(vector<int> perm) { orders.emplace_back(); Order& o = orders.back(); o.perm = perm; o.pos.resize(perm.size()); vector<variable> v; for (size_t i = 0; i < perm.size(); ++i) { o.pos[perm[i]] = i; v.push_back(X[perm[i]]); } o.lib = new CO(custom_var_order(v)); return &o; }
static void sc(const string& name, int n, vector<Order*> os, Dec S, function<void(const Run&, const Sys&)> f) { auto P = make_shared<Dec>(S); uint64_t k = os.size(); vh::scope(name, P->size() * k, [=](uint64_t i) { MOD = 0; f(Run(*os[i % k], n), (*P)[i / k]); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return Run(*os[i % k], n).ord() + show((*P)[i / k]); }); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(4); bool T = vh::thorough; vh::aux_names[0] = "ideal computations"; auto bas = [](const Run& r, const Sys& s) { r.basic(s); }; auto cha = [](const Run& r, const Sys& s) { r.characteristic(s); }; auto wu = [](const Run& r, const Sys& s) { r.wu(s); }; auto zd = [](const Run& r, const Sys& s) { r.zd(s); };
        { int n = 2; vector<Order*> os{mk({0, 1}), mk({1, 0})}; RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); auto A = nonzero(sparse(monos_deg(2, 2), {RQ(1), RQ(-2)}, 2)), A3 = nonzero(sparse(monos_deg(2, 3), {RQ(1), RQ(-1), RQ(3)}, 3));
          auto Z = thin(A, 40); Z.push_back(RP()); Z.push_back(o); Z.push_back(o * RQ(-3)); Z.push_back(x * x * x * y * RQ(2)); for (auto* q : os) { auto pz = make_shared<vector<RP>>(T ? A : Z); pz->push_back(RP()); uint64_t z = pz->size(); vh::scope("2v.ranks." + to_string(q->perm[0]), z * z, [=](uint64_t i) { Run(*q, n).ranks((*pz)[i / z], (*pz)[i % z]); vh::state(vh::mix(i) ^ q->perm[0]); }, [=](uint64_t i) { return (*pz)[i / z].str() + " / " + (*pz)[i % z].str(); }); }
          sc("2v.basset.3", n, os, lists(thin(Z, 24), 3), bas); sc("2v.basset.4", n, os, sets(Z, 4), bas);
          sc("2v.charset.pairs", n, os, lists(T ? A : Z, 2), cha); sc("2v.charset.cubic", n, os, sets(thin(A3, T ? 150 : 60), 2), cha); sc("2v.charset.triples", n, os, sets(thin(A, T ? 50 : 26), 3), cha); sc("2v.charset.degenerate", n, os, [&] { Dec v{{}, {RP()}, {RP(), RP()}, {o}, {RP(), o}, {RP(), x, RP()}, {x, x}, {x, -x}}; return v; }(), cha);
          sc("2v.wu.degenerate", n, os, {{}, {RP()}, {RP(), RP()}, {o}, {RP(), o}, {RP(), x, RP()}, {x, x}, {x, -x}, {x * y}, {x * x * y * y}}, wu); sc("2v.wu.pairs", n, os, lists(thin(A, T ? 100 : 45), 2), wu); sc("2v.wu.cubic", n, os, sets(thin(A3, T ? 80 : 36), 2), wu); sc("2v.wu.triples", n, os, sets(thin(A, T ? 40 : 20), 3), wu);
          // products make initials vanish on components
          vector<RP> PR; for (auto& a : vector<RP>{x, y, x - o, y - o, x - y, x + y, x * y - o}) for (auto& b : vector<RP>{o, x, y, x + o, x * x - y, x * y + o}) PR.push_back(a * b); PR = uniq(PR); sc("2v.wu.products", n, os, sets(thin(PR, T ? 42 : 24), 2), wu);
          // regular chains: T1 in the lower variable, T2 with an initial that may vanish
          vector<RP> t1{x, x * x - o, x * x - x, x * x * x - x, x * x + o, x * x * x * x - x * x * RQ(5) + o * RQ(4), (x - o) * (x - o), x * x * (x + o), x * RQ(2) - o}, t2{y, y * y - o, y * y - x, y * y - x * x, y * y - x * y, x * y - o, x * y * y - y, (x - o) * y + o, y * y * y - y, (y - x) * (y + o), y * y * x + y - o, (x * x - o) * y - o, (y - x) * (y - x), (y - x) * (y - x) * y, (x + o * RQ(2)) * y * y - x}; vector<RP> fs{RP(), o, x, y, x - o, y - o, x * y, x + y, x - y, x * x - o, y * y - o, y * y - x, x * y - o, (x - o) * (y + o), y * (y - x), y * y * y - x, x * x * y - y};
          Dec ch; for (auto& a : t1) for (auto& b : t2) ch.push_back({a, b}); Order* low = mk({1, 0}); sc("2v.regular", n, {low}, ch, [](const Run& r, const Sys& s) { r.reg(s); });
          Dec spl; for (auto& c : ch) if (isreg(c, *low, n)) for (auto& f : fs) { Sys s = c; s.push_back(f); spl.push_back(s); } for (int r = 0; r < 2; ++r) sc(r ? "2v.rsd" : "2v.wrsd", n, {low}, spl, [=](const Run& R, const Sys& s) { R.split({s[0], s[1]}, s[2], r); });
          Dec s1; for (auto& a : t1) for (auto& f : fs) s1.push_back({a, f.subst(1, RQ(0))}); for (int r = 0; r < 2; ++r) { Order* one = mk({0}); auto cut = [](const RP& p) { RP q; for (auto& t : p.t) q.t[Mon{t.first[0]}] = t.second; return q; }; Dec s2; for (auto& s : s1) s2.push_back({cut(s[0]), cut(s[1])}); sc(r ? "1v.rsd" : "1v.wrsd", 1, {one}, s2, [=](const Run& R, const Sys& s) { R.split({s[0]}, s[1], r); }); }
          Dec rc; for (auto& c : ch) if (isreg(c, *low, n)) rc.push_back(c); Dec rs; for (auto& c : rc) if (sqfree(c[0])) rs.push_back(c); sc("2v.sqrfree", n, {low}, rs, [](const Run& R, const Sys& s) { R.squarefree_(s); }); sc("2v.zdtorc", n, {low}, ch, [](const Run& R, const Sys& s) { R.chains(s); });
          { vector<Sys> G{{}, {x}, {y}, {x - o}, {x * y - o}, {x - y}, {x, y}, {y - o, x + y}}; uint64_t g = G.size(); Dec ps{{x * x - o, y * y - o}, {x * x - x, y * y - x}, {x * y - o, x * x - y}, {x * x + y * y - o * RQ(2), x * y - o}, {x * x - y, y * y - x}, {x * x * x - x, (y - x) * (y + o)}, {x - y, x * x * x * x - o}, {x * x - o * RQ(2), y * y - x * y}, {(x - o) * (x - o), y * y - x}, {x * x + o, y * y + x}}; auto pp = make_shared<Dec>(ps); vh::scope("2v.semialgebraic", ps.size() * g * g * g * 2, [=](uint64_t i) { Run(*os[i % 2], n).semi((*pp)[i / 2 / g / g / g], G[i / 2 % g], G[i / 2 / g % g], G[i / 2 / g / g % g]); vh::state(vh::mix(i) ^ 77); }, [=](uint64_t i) { return Run(*os[i % 2], n).ord() + show((*pp)[i / 2 / g / g / g]) + ">=0:" + show(G[i / 2 % g]) + ">0:" + show(G[i / 2 / g % g]) + "!=0:" + show(G[i / 2 / g / g % g]); }); }
          Dec z; for (auto& a : thin(nonzero(A3), T ? 90 : 40)) for (auto& b : thin(nonzero(A3), T ? 90 : 40)) if (!a.is_const() && !b.is_const() && !fgcd(a, b).has(0) && !fgcd(a, b).has(1)) z.push_back({a, b}); sc("2v.grd", n, os, z, zd); }
        { int n = 3; vector<Order*> os{mk({0, 1, 2}), mk({2, 1, 0}), mk({1, 2, 0})}; RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); auto A = nonzero(sparse(monos_deg(3, 2), {RQ(1), RQ(-2)}, 2)); vector<RP> B{x * y - z, x * z - y * y, y * z - x, x * x - y, z * z - x * y + o, x + y + z, x * y + y * z + x * z, x * y * z - o, x * z - x, x * y * z, y * y - y};
          auto pz = make_shared<vector<RP>>(thin(A, T ? 120 : 60)); uint64_t k = pz->size(); for (auto* q : os) vh::scope("3v.ranks." + to_string(q->perm[0]), k * k, [=](uint64_t i) { Run(*q, n).ranks((*pz)[i / k], (*pz)[i % k]); vh::state(vh::mix(i) ^ q->perm[0] ^ 33); }); sc("3v.basset", n, os, sets(thin(A, T ? 34 : 22), 4), bas); sc("3v.charset.pairs", n, os, sets(thin(A, T ? 120 : 50), 2), cha); sc("3v.charset.triples", n, os, sets(thin(A, T ? 34 : 20), 3), cha); sc("3v.charset.binomials", n, os, sets(B, 3), cha);
          sc("3v.wu.pairs", n, os, sets(thin(A, T ? 60 : 24), 2), wu); sc("3v.wu.triples", n, os, sets(thin(A, T ? 22 : 12), 3), wu); sc("3v.wu.binomials", n, os, sets(B, T ? 3 : 2), wu); 
          Order* low = mk({2, 1, 0}); vector<RP> t1{x, x * x - o, x * x - x, x * x + o, x * x * x - x, (x - o) * (x - o)}, t2{y, y * y - x, y * y - o, y * y - x * y, x * y - o, (x - o) * y + o, (y - x) * (y + o), (x + o * RQ(2)) * y * y - y}, t3{z, z * z - y, z * z - x, z * z - o, (z - x) * (z - y), y * z - o, (x + y) * z + o, (y - o) * z * z - x, z * z * z - z, (z - o) * (z - o)}, fs{x, y, z, z - o, x + y + z, z - y, x * z - y, y * z - x, z * z - y, (z - x) * (y - o), x * y * z - o, z * z - x * y}; Dec ch, rc; for (auto& a : t1) for (auto& b : t2) for (auto& c : t3) { ch.push_back({a, b, c}); if (isreg(ch.back(), *low, n)) rc.push_back(ch.back()); } sc("3v.regular", n, {low}, ch, [](const Run& r, const Sys& s) { r.reg(s); }); Dec rs; for (auto& c : rc) if (sqfree(c[0])) rs.push_back(c); sc("3v.sqrfree", n, {low}, rs, [](const Run& R, const Sys& s) { R.squarefree_(s); }); sc("3v.zdtorc", n, {low}, ch, [](const Run& R, const Sys& s) { R.chains(s); });
          for (int r = 0; r < 2; ++r) { Dec spl; size_t k = 0; for (auto& c : rc) if (!r || Run(*low, n).sqf_chain(c)) for (auto& f : fs) if (T || ++k % 4 == 0) { Sys s = c; s.push_back(f); spl.push_back(s); } sc(r ? "3v.rsd" : "3v.wrsd", n, {low}, spl, [=](const Run& R, const Sys& s) { R.split({s[0], s[1], s[2]}, s[3], r); }); }
          Dec zs; auto finite = [](const Sys& P) { auto& g = grl(3); vector<G1> F; for (auto& p : P) F.push_back(sorted(p, g)); uint64_t w = 0; auto G = refgb(F, g, w); for (int v = 0; v < 3; ++v) { bool pw = false; for (auto& q : G) { bool only = true; for (int u = 0; u < 3; ++u) if (u != v && q[0].first[u]) only = false; pw |= only; } if (!pw) return false; } return true; }; auto E = thin(A, 16); for (auto& b : B) E.push_back(b); for (auto& s : sets(E, 3)) if (finite(s)) zs.push_back(s); sc("3v.grd", n, T ? vector<Order*>{os[0], os[1], os[2], mk({0, 2, 1}), mk({2, 0, 1})} : os, zs, zd); }
    });
}
