// C19: real root isolation, refinement and comparison against exact Sturm sequences.
#include "sturm.hh"
using namespace rp; using namespace std; using st::ZP; using st::Sturm;
static RQ qr(const QQ& q) { return cref(q); }
static QQ ql(const RQ& q) { return clib<QQ>(q); }
static ZP zpl(const upolynomial_ZZ& p) { return st::zp(from(p, "polynomial of a root")); }
static upolynomial_ZZ ul(const ZP& a) { upolynomial_ZZ r; for (size_t i = a.size(); i--;) if (a[i] != 0) r.push_back({umonomial((int64_t)i), clib<ZZ>(RQ(a[i]))}); return r; }
static string show(const ZP& a) { ostringstream o; for (size_t i = a.size(); i--;) o << a[i] << (i ? "," : ""); return "[" + o.str() + "]"; }
static string show(const RQ& l, const RQ& r) { return "{" + l.get_str() + "," + r.get_str() + "}"; }
static RQ q(long a, long b = 1) { RQ r(a, b); r.canonicalize(); return r; }
// does the interval stand for the k-th (0-based) real root of the squarefree polynomial?
static bool denotes(const Sturm& S, const RQ& l, const RQ& r, int k) { if (l > r) return false; if (l == r) return st::sgn_at(S.p, l) == 0 && S.below(l) == k; return S.upto(l) == k && S.below(r) == k + 1; }
static void in_order(const vector<pair<RQ, RQ>>& R, const string& w) { for (size_t i = 1; i < R.size(); ++i) CHECK(R[i - 1].second < R[i].first || (R[i - 1].second == R[i].first && !(R[i - 1].first == R[i - 1].second && R[i].first == R[i].second)), w << ": intervals " << show(R[i - 1].first, R[i - 1].second) << " and " << show(R[i].first, R[i].second) << " overlap or are out of order"); }
static void single(const ZP& a) {
    auto f = ul(a); auto r = uspensky(f); vh::step(); Sturm S(a); vector<pair<RQ, RQ>> R; for (auto& x : r) R.push_back({qr(x.first), qr(x.second)});
    string s; for (auto& x : R) s += show(x.first, x.second); CHECK((int)R.size() == S.total(), "uspensky(" << show(a) << ") lists " << R.size() << " roots " << s << ", there are " << S.total()); for (size_t k = 0; k < R.size(); ++k) CHECK(denotes(S, R[k].first, R[k].second, k), "interval " << show(R[k].first, R[k].second) << " does not isolate root " << k << " of " << show(a)); in_order(R, "uspensky"); CHECK(zpl(f) == a, "operand changed");
    CHECK(RealRootBound(f) > ZZ(0), "root bound"); RQ B = RQ(zref(RealRootBound(f))); CHECK(S.upto(-B) == 0 && S.below(B) == S.total(), "RealRootBound " << B << " does not bound the roots of " << show(a)); vh::outcome(s);
}
// sign changes of the coefficient list
static void signs(const ZP& a) { int n = 0, l = 0; for (auto& c : a) { int s = sgn(c); if (s) { if (l && s != l) ++n; l = s; } } CHECK((int)coeffsignchanges(ul(a)) == n, "coeffsignchanges(" << show(a) << ")"); }
struct Joint { Sturm S; vector<st::Iso> iso; vector<Sturm> each; vector<ZP> p; // all distinct roots of a list
    Joint(const vector<ZP>& L) : p(L) { ZP m{RZ(1)}; for (auto& a : L) m = st::sqf(st::mul(m, a)); S = Sturm(m); iso = st::isolate(S); for (auto& a : L) each.push_back(Sturm(st::sqf(a))); }
    bool is_root(size_t i, size_t k) const { auto& x = iso[k]; return x.l == x.r ? st::sgn_at(each[i].p, x.l) == 0 : each[i].below(x.r) - each[i].upto(x.l) == 1; }
    vector<int> roots_of(size_t i) const { vector<int> r; for (size_t k = 0; k < iso.size(); ++k) if (is_root(i, k)) r.push_back(k); return r; } };
static void joint(const vector<ZP>& L) {
    vector<upolynomial_ZZ> F; for (auto& a : L) F.push_back(ul(a)); auto r = uspensky(F); vh::step(); Joint J(L); string w = "uspensky of a list"; for (auto& a : L) w += show(a); CHECK(r.first.size() == r.second.size(), w << ": index list length");
    vector<pair<RQ, RQ>> R; string s; for (size_t k = 0; k < r.first.size(); ++k) { R.push_back({qr(r.first[k].first), qr(r.first[k].second)}); s += show(R[k].first, R[k].second) + "#" + to_string(r.second[k]) + " "; } CHECK(R.size() == J.iso.size(), w << " lists " << s << ", there are " << J.iso.size() << " roots");
    for (size_t k = 0; k < R.size(); ++k) { size_t i = r.second[k]; CHECK(i < L.size() && J.is_root(i, k), w << ": root " << k << " attributed to polynomial " << i << ": " << s); auto ro = J.roots_of(i); int rank = find(ro.begin(), ro.end(), (int)k) - ro.begin(); CHECK(denotes(J.each[i], R[k].first, R[k].second, rank), w << ": interval " << show(R[k].first, R[k].second) << " does not isolate root " << rank << " of " << show(L[i])); CHECK(denotes(J.S, R[k].first, R[k].second, k), w << ": interval " << show(R[k].first, R[k].second) << " contains a root of another member: " << s); } in_order(R, w); vh::outcome(s);
}
static int mult(const ZP& a, const Joint& J, size_t k) { int m = 0; ZP b = a; while (b.size() > 1) { Sturm T(st::sqf(b)); auto& x = J.iso[k]; bool z = x.l == x.r ? st::sgn_at(T.p, x.l) == 0 : T.below(x.r) - T.upto(x.l) == 1; if (!z) break; ++m; b = st::gcd(b, st::der(b)); } return m; }
template <class comp> static void rr(const vector<ZP>& L, const comp* c) {
    vector<polynomial_<ZZ, comp>> F; vector<ZP> M; for (auto& a : L) { RP p; for (size_t i = 0; i < a.size(); ++i) if (a[i] != 0) p = p + RP::x(0, 1, i) * RQ(a[i]); F.push_back(lib<ZZ, comp>(p, c)); } auto r = realroot(F); vh::step(); Joint J(L); string w = "realroot"; for (auto& a : L) w += show(a); string s; vector<pair<RQ, RQ>> R; for (auto& u : r.first) { R.push_back({qr(u.left()), qr(u.right())}); s += show(R.back().first, R.back().second); }
    CHECK(R.size() == J.iso.size() && r.second.size() == R.size(), w << " lists " << s << ", there are " << J.iso.size() << " roots");
    for (size_t k = 0; k < R.size(); ++k) { CHECK(denotes(J.S, R[k].first, R[k].second, k), w << ": interval " << show(R[k].first, R[k].second) << " does not isolate root " << k); ZP d = zpl(r.first[k].poly()); Sturm D(d); CHECK(st::gcd(d, st::der(d)).size() == 1, w << ": polynomial of a root is not squarefree"); int at = R[k].first == R[k].second ? st::sgn_at(d, R[k].first) == 0 : D.below(R[k].second) - D.upto(R[k].first); CHECK(at == 1, w << ": polynomial " << show(d) << " does not have root " << k); CHECK(!r.first[k].isinf() && !r.first[k].isneginf(), "root reported infinite");
        map<uint64_t, uint64_t> got, want; for (auto& x : r.second[k]) { CHECK(!got.count(x.first), w << ": polynomial listed twice for a root"); got[x.first] = x.second; } for (size_t i = 0; i < L.size(); ++i) if (L[i].size() > 1) { int m = mult(L[i], J, k); if (m) want[i] = m; } CHECK(got == want, w << ": multiplicities of root " << k << " " << show(R[k].first, R[k].second)); } in_order(R, w); vh::outcome(s);
}
// ---- comparisons and refinement ----
struct Num { ZP p; int k; };                    // k-th real root of the squarefree p
struct World { vector<Num> num; Joint J; vector<int> pos; World(const vector<Num>& N) : num(N), J([&] { vector<ZP> L; for (auto& x : N) L.push_back(x.p); return L; }()) { for (size_t i = 0; i < N.size(); ++i) pos.push_back(J.roots_of(i)[N[i].k]); }
    int cmp(int i, int j) const { return pos[i] < pos[j] ? 1 : pos[i] == pos[j] ? 0 : -1; } // the library's convention: 1 means less
    int cmpq(int i, const RQ& x) const { int b = J.each[i].below(x), u = J.each[i].upto(x); if (b == num[i].k && u == num[i].k + 1) return 0; return b > num[i].k ? 1 : -1; }
    void keeps(int i, uroot& u, const string& w) const { RQ l = qr(u.left()), r = qr(u.right()); ZP d = zpl(u.poly()); CHECK(d.size() > 1, w << ": root " << i << " lost its polynomial"); CHECK(denotes(J.each[i], l, r, num[i].k), w << ": root " << i << " became " << show(l, r)); Sturm D(st::sqf(d)); CHECK(l == r ? st::sgn_at(d, l) == 0 : D.below(r) - D.upto(l) == 1, w << ": polynomial " << show(d) << " of root " << i << " does not single out the number"); } };
static vector<Num> reals(const vector<ZP>& A) { vector<Num> o; for (auto& a : A) { int n = Sturm(a).total(); for (int k = 0; k < n; ++k) o.push_back({a, k}); } return o; }
static string nm(const Num& n) { return "root " + to_string(n.k) + " of " + show(n.p); }
// closed intervals with grid end points that contain the root in their interior and no other root of the polynomial
static vector<pair<RQ, RQ>> windows(const Num& n, const vector<RQ>& grid, bool open = false) { Sturm S(n.p); vector<pair<RQ, RQ>> o; for (auto& l : grid) for (auto& r : grid) if (l < r && (open || (st::sgn_at(n.p, l) && st::sgn_at(n.p, r))) && denotes(S, l, r, n.k)) o.push_back({l, r}); for (auto& l : grid) if (denotes(S, l, l, n.k)) o.push_back({l, l}); return o; }
static uroot mk(const Num& n, const pair<RQ, RQ>& w) { return uroot(ul(n.p), ql(w.first), ql(w.second)); }
static void ask(const World& W, int i, int j, uroot& a, uroot& b, int form, const string& w) { int e = W.cmp(i, j); bool got, want; switch (form) { case 0: { int g = uroot::comp(&a, &b); CHECK(g == e, w << ": comp gives " << g << ", should be " << e); return; } case 1: got = a < b; want = e == 1; break; case 2: got = a > b; want = e == -1; break; case 3: got = a <= b; want = e >= 0; break; case 4: got = a >= b; want = e <= 0; break; case 5: got = a == b; want = e == 0; break; default: got = a != b; want = e != 0; } CHECK(got == want, w << ": operator " << form << " gives " << got); }
static void askq(const World& W, int i, uroot& a, const RQ& x, int form, const string& w) { int e = W.cmpq(i, x); QQ v = ql(x); bool got, want; switch (form) { case 0: { int g = uroot::comp(&a, v); CHECK(g == e, w << ": comp with " << x << " gives " << g << ", should be " << e); return; } case 1: got = a < v; want = e == 1; break; case 2: got = a > v; want = e == -1; break; case 3: got = a <= v; want = e >= 0; break; case 4: got = a >= v; want = e <= 0; break; case 5: got = a == v; want = e == 0; break; case 6: got = a != v; want = e != 0; break; case 7: got = v < a; want = e == -1; break; case 8: got = v > a; want = e == 1; break; case 9: got = v <= a; want = e <= 0; break; case 10: got = v >= a; want = e >= 0; break; case 11: got = v == a; want = e == 0; break; default: got = v != a; want = e != 0; } CHECK(got == want, w << ": operator " << form << " with " << x << " gives " << got); }
static vector<ZP> all(int deg, long lo, long hi, bool sqf) { vector<ZP> o; uint64_t b = hi - lo + 1, n = vh::ipow(b, deg + 1); for (uint64_t i = 0; i < n; ++i) { ZP a; uint64_t t = i; for (int d = 0; d <= deg; ++d) { a.push_back(RZ(lo + (long)(t % b))); t /= b; } st::trim(a); if (a.size() < 2 || (int)a.size() != deg + 1) continue; if (sqf && st::gcd(a, st::der(a)).size() > 1) continue; o.push_back(a); } return o; }
static vector<ZP> thin(const vector<ZP>& A, size_t n) { if (A.size() <= n) return A; vector<ZP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
static bool coprime(const ZP& a, const ZP& b) { return st::gcd(a, b).size() <= 1; }
static void singles(const string& name, vector<ZP> A) { auto P = make_shared<vector<ZP>>(A); vh::scope(name, P->size(), [=](uint64_t i) { single((*P)[i]); signs((*P)[i]); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*P)[i]); }); }
static string shows(const vector<ZP>& L) { string s; for (auto& a : L) s += show(a); return s; }
static void lists(const string& name, vector<vector<ZP>> A, int mode) { auto P = make_shared<vector<vector<ZP>>>(A); vh::scope(name, P->size(), [=](uint64_t i) { auto& L = (*P)[i]; if (mode == 0) joint(L); else if (i % 2) rr<lex>(L, &lex::init); else rr<grlex>(L, &grlex::init); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return shows((*P)[i]); }); }
static ZP lin(long a, long b) { return {RZ(-b), RZ(a)}; } // a x - b
static ZP prod(const vector<ZP>& L) { ZP m{RZ(1)}; for (auto& a : L) m = st::mul(m, a); return m; }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(1); MOD = 0; bool T = vh::thorough; RZ P("1000000000000000000000000000057");
        singles("single.deg1", all(1, -9, 9, true)); singles("single.deg2", all(2, -7, 7, true)); singles("single.deg3", all(3, T ? -5 : -4, T ? 5 : 4, true)); singles("single.deg4", all(4, T ? -3 : -2, T ? 3 : 2, true)); singles("single.deg5", all(5, T ? -2 : -1, T ? 2 : 1, true)); singles("single.deg7", all(T ? 8 : 7, -1, 1, true));
        vector<ZP> LN; for (auto& x : vector<pair<long, long>>{{1, 0}, {1, 1}, {1, -1}, {1, 2}, {1, -2}, {2, 1}, {2, -1}, {3, 1}, {4, 3}, {1, 4}, {4, -1}, {1, 3}, {8, 1}, {1, 8}, {1, -8}, {16, 15}, {7, -5}}) LN.push_back(lin(x.first, x.second));
        vector<ZP> QD{{RZ(-2), RZ(0), RZ(1)}, {RZ(-3), RZ(0), RZ(1)}, {RZ(1), RZ(0), RZ(1)}, {RZ(-1), RZ(1), RZ(1)}, {RZ(-2), RZ(0), RZ(9)}, {RZ(-1), RZ(-3), RZ(0), RZ(1)}, {RZ(-2), RZ(0), RZ(0), RZ(1)}, {RZ(-1), RZ(4), RZ(4)}};
        vector<ZP> I = LN; I.insert(I.end(), QD.begin(), QD.end()); vector<ZP> pr; for (size_t a = 0; a < I.size(); ++a) for (size_t b = a; b < I.size(); ++b) for (size_t c = b; c < I.size(); ++c) { vector<ZP> L{I[a]}; if (b > a) L.push_back(I[b]); if (c > b) L.push_back(I[c]); pr.push_back(prod(L)); } singles("single.products", pr);
        { vector<ZP> v; for (unsigned m = 0; m < (T ? 16384u : 4096u); ++m) if (m && __builtin_popcount(m) <= (T ? 6 : 6)) { vector<ZP> L; for (int i = 0; i < 16; ++i) if (m >> i & 1) L.push_back(LN[i]); v.push_back(prod(L)); } singles("single.rational.sets", v); }
        vector<ZP> hard; for (long a : {3l, 10l, 100l, 1000000l}) for (int n : {3, 4, 5}) { ZP m(n + 1, RZ(0)); m[n] = 1; ZP s = prod({lin(a, 1), lin(a, 1)}); for (int i = 0; i < 3; ++i) m[i] -= 2 * s[i]; hard.push_back(m); } for (auto& e : vector<ZP>{{RZ(-P), RZ(0), RZ(1)}, {RZ(1), -P, RZ(1)}, {RZ(-1), RZ(0), P}, {-P, RZ(1)}, {RZ(1), P}, {RZ(-1), P * P, -P, RZ(1)}, {P, RZ(0), -P * 3, RZ(0), RZ(1)}}) hard.push_back(e); for (long n : {1000l, 1000000l}) { hard.push_back(prod({lin(n, 1), lin(n, -1)})); hard.push_back(prod({lin(n, 1), lin(n + 1, 1), lin(1, 0)})); hard.push_back(prod({lin(1, n), lin(1, n + 1), lin(n, n + 1)})); } { vector<ZP> W; for (int i = 1; i <= 12; ++i) { W.push_back(lin(1, i)); hard.push_back(prod(W)); } } { ZP t0{RZ(1)}, t1{RZ(0), RZ(1)}; for (int i = 2; i <= 12; ++i) { ZP t2 = st::mul(t1, ZP{RZ(0), RZ(2)}); for (size_t j = 0; j < t0.size(); ++j) t2[j] -= t0[j]; hard.push_back(t2); t0 = t1; t1 = t2; } } singles("single.hard", hard);
        // joint isolation of coprime lists, root lists with multiplicities
        vector<ZP> S2 = all(2, -2, 2, true), S3 = all(3, -1, 1, true), C = I; for (auto& a : thin(S2, 30)) C.push_back(a); for (auto& a : thin(S3, 30)) C.push_back(a);
        { vector<vector<ZP>> v; for (auto& a : C) { v.push_back({a}); v.push_back({ZP{RZ(3)}, a}); for (auto& b : C) if (coprime(a, b)) v.push_back({a, b}); } lists("list.pairs", v, 0); vector<ZP> D = T ? C : thin(C, 45); v.clear(); for (auto& a : D) for (auto& b : D) if (coprime(a, b)) for (auto& c : D) if (&a < &c && coprime(a, c) && coprime(b, c)) v.push_back({a, b, c}); lists("list.triples", v, 0); v.clear(); for (auto& a : hard) { for (auto& b : hard) if (coprime(a, b)) v.push_back({a, b}); for (auto& b : I) if (coprime(a, b)) { v.push_back({a, b}); v.push_back({b, a}); } } lists("list.hard", v, 0); }
        { vector<vector<ZP>> v; vector<ZP> E; for (auto& a : I) { E.push_back(a); E.push_back(prod({a, a})); } vector<ZP> G; for (size_t i = 0; i < E.size(); i += 2) { G.push_back(E[i]); for (auto& b : I) G.push_back(prod({E[(i * 3 + 1) % E.size()], b})); } for (auto& c : {RZ(-1), RZ(6)}) for (auto& a : thin(G, 60)) { ZP m = a; for (auto& x : m) x *= c; G.push_back(m); } G.push_back({RZ(2)}); G.push_back({RZ(-1)}); v.push_back({}); for (auto& a : G) v.push_back({a}); vector<ZP> H = thin(G, T ? 400 : 160); for (auto& a : H) for (auto& b : H) v.push_back({a, b}); lists("realroot.pairs", v, 1); v.clear(); H = thin(G, T ? 70 : 32); for (auto& a : H) for (auto& b : H) for (auto& c : H) v.push_back({a, b, c}); lists("realroot.triples", v, 1); }
        // comparison of any two numbers held in any isolating interval
        vector<RQ> grid; for (int i = -8; i <= 8; ++i) grid.push_back(q(i, 4)); for (int i : {-8, -4, -3, 3, 4, 8}) grid.push_back(q(i)); grid.push_back(q(1, 3)); grid.push_back(q(-17, 12)); sort(grid.begin(), grid.end());
        vector<ZP> K = QD; for (auto& a : vector<ZP>{lin(1, 0), lin(2, 1), lin(3, 1), lin(1, 1), prod({QD[0], lin(2, 1)}), prod({QD[0], QD[1]}), prod({lin(1, 1), lin(2, 1), lin(1, 0)}), prod({QD[3], lin(1, -1)}), {RZ(-4), RZ(0), RZ(2)}, {RZ(2), RZ(0), RZ(-1)}, {RZ(1), RZ(0), RZ(-10), RZ(0), RZ(1)}}) K.push_back(a); for (auto& a : thin(S3, T ? 40 : 8)) K.push_back(a);
        auto N = make_shared<vector<Num>>(reals(K)); auto Wn = make_shared<vector<vector<pair<RQ, RQ>>>>(); for (auto& n : *N) { auto w = windows(n, grid); vector<pair<RQ, RQ>> s; size_t m = T ? 34 : 24; for (size_t i = 0; i < w.size() && w.size() > m ? i < m : i < w.size(); ++i) s.push_back(w.size() > m ? w[i * w.size() / m] : w[i]); Wn->push_back(s); }
        uint64_t n = N->size(); auto G = make_shared<vector<RQ>>(grid);
        auto windows_scope = [=](const string& name, shared_ptr<vector<Num>> N, shared_ptr<vector<vector<pair<RQ, RQ>>>> Wn) { uint64_t n = N->size();
            vh::scope(name, n * n, [=](uint64_t i) { World W(vector<Num>{(*N)[i / n], (*N)[i % n]}); for (auto& a : (*Wn)[i / n]) for (auto& b : (*Wn)[i % n]) for (int form = 0; form < 7; ++form) { uroot u = mk(W.num[0], a), v = mk(W.num[1], b); string w = nm(W.num[0]) + show(a.first, a.second) + " vs " + nm(W.num[1]) + show(b.first, b.second); ask(W, 0, 1, u, v, form, w); W.keeps(0, u, w); W.keeps(1, v, w); vh::step(); if (form) continue; ask(W, 1, 0, v, u, 0, w + " (asked again)"); uroot c = u; if (i / n != i % n) ask(W, 0, 1, c, v, 0, w + " (copy)"); } vh::state(vh::mix(i) ^ 11); }, [=](uint64_t i) { return nm((*N)[i / n]) + " vs " + nm((*N)[i % n]); }); };
        windows_scope("compare.windows", N, Wn);
        // intervals are open: other roots of the same polynomial may lie exactly at their end points
        { vector<ZP> E; for (auto& r : vector<ZP>{lin(1, 1), lin(1, 2), lin(1, 0), lin(2, 3), prod({lin(1, 1), lin(1, 2)}), prod({lin(1, 0), lin(1, 2)})}) for (auto& a : vector<ZP>{QD[0], QD[1], lin(4, 5), lin(2, 3), {RZ(1), RZ(-3), RZ(1)}, prod({QD[0], QD[1]})}) if (coprime(r, a)) E.push_back(prod({r, a}));
          if (!T) E = thin(E, 24); vector<RQ> g{q(0), q(1), q(5, 4), q(3, 2), q(2)}; auto M = make_shared<vector<Num>>(); auto V = make_shared<vector<vector<pair<RQ, RQ>>>>(); for (auto& x : reals(E)) { vector<pair<RQ, RQ>> s; for (auto& w : windows(x, g, true)) if (w.first < w.second) s.push_back(w); if (s.size()) { M->push_back(x); V->push_back(s); } } windows_scope("compare.endpoints", M, V); }
        vh::scope("compare.rational", n, [=](uint64_t i) { World W(vector<Num>{(*N)[i]}); for (auto& a : (*Wn)[i]) for (auto& x : *G) for (int form = 0; form < 13; ++form) { uroot u = mk(W.num[0], a); string w = nm(W.num[0]) + show(a.first, a.second); askq(W, 0, u, x, form, w); W.keeps(0, u, w); vh::step(); if (form) continue; askq(W, 0, u, x, 0, w + " (again)"); for (int s = 0; s < 6; ++s) { RQ l0 = qr(u.left()), r0 = qr(u.right()); u.shrinkinterval(); W.keeps(0, u, w + " shrunk"); RQ l = qr(u.left()), r = qr(u.right()); CHECK(l >= l0 && r <= r0 && (r - l) * 2 <= r0 - l0, w << ": shrinkinterval " << show(l0, r0) << " to " << show(l, r)); CHECK(u.is_single() == (l == r), "is_single"); } askq(W, 0, u, x, 0, w + " (after shrinking)"); } vh::state(vh::mix(i) ^ 12); }, [=](uint64_t i) { return nm((*N)[i]); });
        vh::scope("compare.infinite", n, [=](uint64_t i) { World W(vector<Num>{(*N)[i]}); for (auto& a : (*Wn)[i]) { uroot u = mk(W.num[0], a), p = uroot::inf(), m = uroot::neginf(), p2 = uroot::inf(), m2 = uroot::neginf(); CHECK(u < p && p > u && m < u && u > m && !(u > p) && !(u == p) && !(m == u) && u != p && m < p && p > m && p == p2 && m == m2 && !(p < p2) && !(m < m2) && p >= p2 && m <= m2 && p > ql(q(100)) && m < ql(q(-100)) && p.isinf() && m.isneginf(), "infinite roots compare wrongly with " << nm(W.num[0])); vh::step(16); W.keeps(0, u, "infinite"); } vh::state(vh::mix(i) ^ 13); }, [=](uint64_t i) { return nm((*N)[i]); });
        // numbers as realroot hands them out, every pair compared, shrunk and compared again
        { auto Z = make_shared<vector<ZP>>(); for (auto& a : thin(pr, T ? 240 : 120)) Z->push_back(a); for (auto& a : thin(hard, 24)) Z->push_back(a); uint64_t z = Z->size(); vh::scope("compare.isolated", z * z, [=](uint64_t i) { const ZP &a = (*Z)[i / z], &b = (*Z)[i % z]; auto get = [](const ZP& p) { vector<polynomial_ZZ> F; RP f; for (size_t d = 0; d < p.size(); ++d) if (p[d] != 0) f = f + RP::x(0, 1, d) * RQ(p[d]); F.push_back(lib<ZZ, grlex>(f, &grlex::init)); return realroot(F).first; };
            auto A = get(a), B = get(b); vector<Num> N; for (auto& p : {st::sqf(a), st::sqf(b)}) for (auto& x : reals({p})) N.push_back(x); World W(N); CHECK(N.size() == A.size() + B.size(), "number of roots"); for (size_t x = 0; x < A.size(); ++x) for (size_t y = 0; y < B.size(); ++y) { int j = A.size() + y; uroot u = A[x], v = B[y]; ask(W, x, j, u, v, 0, "isolated " + nm(N[x]) + " vs " + nm(N[j])); W.keeps(x, u, "isolated"); W.keeps(j, v, "isolated"); u.shrinkinterval(); W.keeps(x, u, "isolated, shrunk"); ask(W, j, x, v, u, 0, "isolated, shrunk"); vh::step(2); }
            // comparisons share the objects: sort all of them in place
            vector<uroot*> o; for (auto& u : A) o.push_back(&u); for (auto& u : B) o.push_back(&u); for (size_t x = 0; x < o.size(); ++x) for (size_t y = 0; y < o.size(); ++y) if (x != y) { ask(W, x, y, *o[x], *o[y], 0, "shared objects"); vh::step(); } for (size_t x = 0; x < o.size(); ++x) W.keeps(x, *o[x], "shared objects"); vh::state(vh::mix(i) ^ 15); }, [=](uint64_t i) { return show((*Z)[i / z]) + " vs " + show((*Z)[i % z]); }); }
        // every history of refinements and comparisons of three numbers
        vector<Num> few; for (auto& a : vector<ZP>{QD[0], prod({QD[0], lin(2, 1)}), prod({QD[0], QD[1]}), lin(2, 1), prod({lin(1, 1), lin(2, 1), lin(1, 0)}), QD[3], {RZ(1), RZ(0), RZ(-10), RZ(0), RZ(1)}}) for (auto& x : reals({a})) few.push_back(x); auto F = make_shared<vector<Num>>(few); uint64_t m = few.size(); 
        vh::scope("histories", m * m * m, [=](uint64_t i) { vector<Num> t{(*F)[i % m], (*F)[i / m % m], (*F)[i / m / m]}; World W(t); vector<uroot> start; for (auto& x : t) { vector<RQ> wide{q(-8), q(-2), q(-1), q(-1, 4), q(1, 4), q(3, 4), q(2), q(3), q(8)}; auto w = windows(x, wide); start.push_back(mk(x, w.empty() ? windows(x, *G)[0] : w[0])); }
            vector<RQ> qs{q(1, 2), q(0), q(3, 2)}; function<void(const vector<uroot>&, int, string)> go = [&](const vector<uroot>& s, int d, string h) { if (!d) return; for (int o = 0; o < 12; ++o) { vector<uroot> u = s; string w; if (o < 3) { w = h + " shrink" + to_string(o); u[o].shrinkinterval(); } else if (o < 9) { int a = (o - 3) / 2, b = (a + 1 + o % 2) % 3; w = h + " comp" + to_string(a) + to_string(b); ask(W, a, b, u[a], u[b], d == 1 ? 0 : o % 7, w); } else { w = h + " rat" + to_string(o - 9); askq(W, o - 9, u[o - 9], qs[(o - 9 + d) % 3], 0, w); } vh::step(); for (int k = 0; k < 3; ++k) W.keeps(k, u[k], w); go(u, d - 1, w); } }; go(start, T && (i % 3 == 0) ? 4 : 3, ""); vh::state(vh::mix(i) ^ 14); }, [=](uint64_t i) { return nm((*F)[i % m]) + "; " + nm((*F)[i / m % m]) + "; " + nm((*F)[i / m / m]); });
    });
}
