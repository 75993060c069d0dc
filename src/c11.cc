// C11: content and primitive part, extended gcd, modular images.
#include "algebra.hh"
using namespace rp; using namespace std;
// content with respect to the first variable (in the order) that occurs: gcd over Z of the coefficients
int first_var(const RP& a, const vector<int>& prio) { for (int v : prio) if (v < nvars(a) && a.has(v)) return v; return -1; }
RP rcont(const RP& a, int v) { RP g; if (v < 0) return RP::c(RQ(a.icont()), nvars(a)); for (auto& c : a.coeffs(v)) if (!c.zero()) g = g.zero() ? zgcd(c, c) : zgcd(g, c); return g; }
template <class comp> void content(const string& name, const comp* c, int n, vector<RP> A) {
    A = uniq(A); auto pa = make_shared<vector<RP>>(A); auto prio = ord_of(*c).prio;
    vh::scope(name, A.size(), [=](uint64_t q) {
        MOD = 0; const RP& a = (*pa)[q]; auto f = lib<ZZ, comp>(a, c); vrand::reset(0); vh::step(3);
        if (a.zero()) { CHECK(from(pp(f), n).zero(), "pp(0)"); return; }
        RP k = from(cont(f), n, "cont"), p = from(pp(f), n, "pp"), w = rcont(a, first_var(a, prio));
        CHECK(k == w || k == -w, "cont(" << a << ") = " << k << ", expected " << w << " up to sign"); CHECK(k * p == a, "cont * pp = (" << k << ")*(" << p << ") is not " << a);
        if (!p.zero()) { RP u = from(cont(pp(f)), n); CHECK(u == RP::c(1, n) || u == RP::c(-1, n), "content of the primitive part of " << a << " is " << u); } CHECK(from(f, n) == a, "operand changed"); vh::state(vh::mix(q) ^ vh::hstr(name)); vh::outcome(w.str());
    }, [=](uint64_t q) { return (*pa)[q].str(); });
}
template <class comp> void ext(const string& name, const comp* c, int n, vector<RP> A, vector<RP> B) {
    A = uniq(A); B = uniq(B); auto pa = make_shared<vector<RP>>(A), pb = make_shared<vector<RP>>(B); uint64_t k = B.size(); auto prio = ord_of(*c).prio;
    vh::scope(name, A.size() * k, [=](uint64_t q) {
        MOD = 0; const RP &a = (*pa)[q / k], &b = (*pb)[q % k]; typedef polynomial_<ZZ, comp> P; P f = lib<ZZ, comp>(a, c), g = lib<ZZ, comp>(b, c), s = f, t = g; vrand::reset(0); P d = (q & 1) ? gcd(f, g, s, t) : polynomial_GCD(f, g, s, t); vh::step();
        RP D = from(d, n, "gcd"), Sx = from(s, n, "s"), Tx = from(t, n, "t"); CHECK(Sx * a + Tx * b == D, "s*f+t*g != gcd for " << a << " , " << b << ": s=" << Sx << " t=" << Tx << " gcd=" << D);
        CHECK(from(f, n) == a && from(g, n) == b, "operand changed"); if (a.zero() && b.zero()) { CHECK(D.zero(), "gcd(0,0)"); return; } CHECK(!D.zero(), "gcd is 0");
        int v = first_var(a, prio), u = first_var(b, prio); for (int i : prio) if (i == v || i == u) { v = i; break; } RP G = zgcd(a, b), Q; CHECK(exdiv(D, G, Q) && zintegral(Q), "extended gcd " << D << " is not a multiple of the gcd " << G); CHECK(v < 0 || D.deg(v) == G.deg(v), "extended gcd " << D << " of " << a << " , " << b << " has the wrong degree");
        if (v < 0 && !a.zero() && !b.zero()) CHECK(D == G, "extended gcd of integers " << a << " , " << b << " is " << D); if (!a.zero() && !b.zero() && v >= 0) CHECK(D.lc(v).is_const() == false || D.lc(v).cst() > 0, "extended gcd is not positive"); vh::state(vh::mix(q) ^ vh::hstr(name));
    }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pb)[q % k].str(); });
}
void uext(const string& name, vector<RP> A) {
    vector<RP> N; for (auto& a : uniq(A)) if (!a.zero()) N.push_back(a); auto pa = make_shared<vector<RP>>(N); uint64_t k = N.size();
    vh::scope(name, k * k, [=](uint64_t q) { MOD = 0; const RP &a = (*pa)[q / k], &b = (*pa)[q % k]; upolynomial_ZZ f = ulib<ZZ>(a), g = ulib<ZZ>(b), s = g, t = f; auto d = (q & 1) ? gcd(f, g, s, t) : polynomial_GCD(f, g, s, t); vh::step(); RP D = from(d), Sx = from(s), Tx = from(t);
        CHECK(Sx * a + Tx * b == D, "s*f+t*g != gcd for " << a << " , " << b << ": s=" << Sx << " t=" << Tx << " gcd=" << D); RP G = zgcd(a, b); CHECK(prim(D) == prim(G) && D.t.rbegin()->second > 0, "extended gcd of " << a << " , " << b << " is " << D); RP Q; CHECK(exdiv(D, G, Q) && zintegral(Q), "extended gcd of " << a << " , " << b << " is " << D); vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pa)[q % k].str(); });
}
void zext(const string& name, uint64_t p, vector<RP> A) {
    MOD = p; vector<RP> N; for (auto& a : A) { RP r = a.red(); if (!r.zero()) N.push_back(r); } N = uniq(N); MOD = 0; auto pa = make_shared<vector<RP>>(N); uint64_t k = N.size();
    vh::scope(name, k * k, [=](uint64_t q) { MOD = p; const RP &a = (*pa)[q / k], &b = (*pa)[q % k]; upolynomial_<Zp> f = ulib<Zp>(a), g = ulib<Zp>(b), s = g, t = f; auto d = (q & 1) ? gcd(f, g, s, t) : polynomial_GCD(f, g, s, t); vh::step(); RP D = from(d), Sx = from(s, "s"), Tx = from(t, "t"); CHECK(D == fgcd(a, b), "gcd of " << a << " , " << b << " mod " << p << " is " << D);
        CHECK((Sx * a + Tx * b).red() == D, "s*f+t*g != gcd for " << a << " , " << b << " mod " << p << ": s=" << Sx << " t=" << Tx << " gcd=" << D); MOD = 0; vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pa)[q % k].str() + " mod " + to_string(p); });
}
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(5); bool T = vh::thorough; RZ p1("18446744073709551557"), p2("18446744073709551533"), w("9223372036854775807"), big("123456789012345678901234567890");
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); vector<RP> F3; RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3);
        for (auto& a : {x + y, x * z - o, y * RQ(-2) + z, x * y + z * z, y - z, z + o, o * RQ(6), o * RQ(-4), y * z * RQ(2) + o * RQ(2), x + y + z, x, y * y, z * RQ(-3)}) F3.push_back(a); vector<RP> P3, P2; for (size_t i = 0; i < F3.size(); ++i) for (size_t j = i; j < F3.size(); ++j) { P2.push_back(F3[i] * F3[j]); for (size_t k = j; k < F3.size(); ++k) P3.push_back(F3[i] * F3[j] * F3[k]); }
        auto S2 = sparse(monos_deg(2, 2), {RQ(-2), RQ(1), RQ(6)}, 3);
        // content / primitive part
        content<lex>("cont.1v", &lex::init, 1, dense(monos_box({3}), {RQ(0), RQ(-4), RQ(2), RQ(6), RQ(-3)})); content<lex>("cont.1v.word", &lex::init, 1, dense(monos_box({2}), {RQ(0), RQ(1), RQ(w), RQ(-w - 1), RQ(p1 * 6), RQ(p1 * p2 * 4), RQ(-big)}));
        content<lex>("cont.2v", &lex::init, 2, S2); content<lex>("cont.3v.products", &lex::init, 3, P3); content<lex_<custom_var_order>>("cont.lexc.3v", &lc, 3, P3); content<lex>("cont.3v.sparse", &lex::init, 3, sparse(monos_box({1, 1, 1}), {RQ(2), RQ(-6)}, T ? 4 : 3));
        { auto pa = make_shared<vector<RP>>(uniq(dense(monos_box({3}), {RQ(0), RQ(-4), RQ(2), RQ(6), RQ(-9), RQ(w), RQ(-w - 1), RQ(p1 * 6)}))); vh::scope("cont.u", pa->size(), [=](uint64_t q) { MOD = 0; const RP& a = (*pa)[q]; auto f = ulib<ZZ>(a); RZ k = zref(cont(f)); vh::step(); if (!a.zero()) CHECK(abs(k) == a.icont(), "cont(" << a << ") = " << k); CHECK(from(f) == a, "operand changed"); vh::state(vh::mix(q)); }, [=](uint64_t q) { return (*pa)[q].str(); }); }
        // extended gcd
        for (uint64_t p : {2ull, 3ull}) zext("ext.Zp" + to_string(p), p, dense(monos_box({p == 2 ? (T ? 7 : 6) : (T ? 4 : 3)}), ints(0, p - 1))); for (uint64_t p : {5ull, 7ull}) zext("ext.Zp" + to_string(p), p, dense(monos_box({2}), ints(0, p - 1)));
        zext("ext.Zp.big", 18446744073709551557ull, dense(monos_box({T ? 4 : 3}), {RQ(0), RQ(1), RQ(-1), RQ(p1 / 2)})); zext("ext.Zp.31", 2147483647ull, dense(monos_box({3}), {RQ(0), RQ(1), RQ(-1), RQ(65536)}));
        uext("ext.u", dense(monos_box({T ? 3 : 2}), ints(-2, 2))); uext("ext.u.word", dense(monos_box({2}), {RQ(0), RQ(1), RQ(w), RQ(-big), RQ(p1)})); uext("ext.u.deg3", dense(monos_box({3}), {RQ(0), RQ(2), RQ(-1)}));
        ext<lex>("ext.1v", &lex::init, 1, dense(monos_box({2}), ints(-2, 2)), dense(monos_box({2}), ints(-2, 2))); ext<lex>("ext.const", &lex::init, 1, dense(monos_box({0}), ints(-40, 40)), dense(monos_box({0}), ints(-40, 40))); ext<lex>("ext.const.word", &lex::init, 1, sparse(monos_box({0}), {RQ(w), RQ(-w - 1), RQ(big), RQ(-big * 3), RQ(6), RQ(p1), RQ(p1 * p2)}, 1), sparse(monos_box({0}), {RQ(w), RQ(-w - 1), RQ(big), RQ(-big * 3), RQ(6), RQ(p1), RQ(p1 * p2)}, 1));
        auto S1 = sparse(monos_deg(2, 2), {RQ(-2), RQ(1)}, 2); ext<lex>("ext.2v", &lex::init, 2, S1, T ? sparse(monos_deg(2, 2), {RQ(-2), RQ(3)}, 3) : S1); ext<lex>("ext.3v", &lex::init, 3, P2, F3); ext<lex_<custom_var_order>>("ext.lexc.3v", &lc, 3, P2, F3); if (T) ext<lex>("ext.3v.full", &lex::init, 3, P2, P2);
        // coefficientwise residues
        { vector<RQ> c; for (auto& k : {RZ(0), RZ(1), RZ(-1), RZ(6), RZ(-7), w, RZ(-w - 1), RZ(w + 1), p1, RZ(-p1), RZ(p1 + 1), RZ(p1 * p2), RZ(-p1 * p2 - 1), RZ(big * big)}) c.push_back(RQ(k)); static auto A = uniq(dense(monos_box({2}), c)); static auto B = uniq(sparse(monos_deg(2, 2), vector<RQ>(c.begin() + 1, c.end()), 2));
          static vector<uint64_t> ps{2, 3, 5, 7, 97, 65537, 4294967291ull, 4294967311ull, 9223372036854775783ull, 18446744073709551533ull, 18446744073709551557ull};
          vh::scope("mod.u", A.size(), [](uint64_t q) { MOD = 0; auto f = ulib<ZZ>(A[q]); for (auto p : ps) { auto g = polynomial_mod(f, p); MOD = p; RP r = from(g); CHECK(r == A[q].red(), A[q] << " mod " << p << " = " << r); MOD = 0; vh::step(); } vh::state(vh::mix(q)); }, [](uint64_t q) { return A[q].str(); });
          auto m = [](auto* cp, string nm) { vh::scope("mod." + nm, B.size(), [=](uint64_t q) { MOD = 0; typedef std::remove_const_t<std::remove_pointer_t<decltype(cp)>> C; auto f = lib<ZZ, C>(B[q], cp); for (auto p : ps) { auto g = polynomial_mod(f, p); auto h = f; auto e = polynomial_mod(std::move(h), p); MOD = p; RP r = from(g, 2), r2 = from(e, 2), want = B[q].red(); CHECK(r == want && r2 == want, B[q] << " mod " << p << " = " << r << " / " << r2); MOD = 0; CHECK(from(f, 2) == B[q], "operand changed"); vh::step(2); } vh::state(vh::mix(q)); }, [](uint64_t q) { return B[q].str(); }); };
          m(&lex::init, "lex"); m(&grlex::init, "grlex"); m(&lc, "lexc"); }
    });
}
