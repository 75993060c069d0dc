// C10: polynomial gcd.
#include "algebra.hh"
using namespace rp; using namespace std;
template <class comp> struct GZ {
    typedef polynomial_<ZZ, comp> P; const comp* c; int n;
    void one(const RP& a, const RP& b, const RP& want, const char* w = "gcd") {
        P f = lib<ZZ, comp>(a, c), g = lib<ZZ, comp>(b, c); vrand::reset(0); P d = gcd(f, g); vh::step(); RP r = from(d, n, w);
        CHECK(r == want || r == -want, w << "(" << a << " , " << b << ") = " << r << ", expected " << want << " up to sign");
        CHECK(from(f, n) == a && from(g, n) == b, "operand changed");
    }
};
// every ordered pair of a catalogue against the reference gcd
template <class comp> void pairs(const string& name, const comp* c, int n, vector<RP> A, vector<RP> B) {
    A = uniq(A); B = uniq(B); auto pa = make_shared<vector<RP>>(A), pb = make_shared<vector<RP>>(B); uint64_t k = B.size();
    vh::scope(name, A.size() * k, [=](uint64_t q) { MOD = 0; GZ<comp> g{c, n}; const RP &a = (*pa)[q / k], &b = (*pb)[q % k]; RP w = zgcd(a, b); g.one(a, b, w); g.one(b, a, w); vh::outcome(w.str()); vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pb)[q % k].str(); });
}
// h*a , h*b for every h, a, b
template <class comp> void triples(const string& name, const comp* c, int n, vector<RP> H, vector<RP> A) {
    H = uniq(H); A = uniq(A); auto ph = make_shared<vector<RP>>(H), pa = make_shared<vector<RP>>(A); auto tab = make_shared<map<uint64_t, RP>>(); uint64_t k = A.size();
    vh::scope(name, H.size() * k * k, [=](uint64_t q) { MOD = 0; GZ<comp> g{c, n}; const RP &h = (*ph)[q / k / k], &a = (*pa)[q / k % k], &b = (*pa)[q % k]; if (!tab->count(q % (k * k))) (*tab)[q % (k * k)] = zgcd(a, b); RP w = h * (*tab)[q % (k * k)]; g.one(h * a, h * b, w); vh::state(vh::mix(q) ^ vh::hstr(name)); vh::outcome(w.str()); },
        [=](uint64_t q) { return "(" + (*ph)[q / k / k].str() + ") times (" + (*pa)[q / k % k].str() + ") and (" + (*pa)[q % k].str() + ")"; });
}
void u_one(const RP& a, const RP& b, const RP& w) { auto f = ulib<ZZ>(a), g = ulib<ZZ>(b); RP r = from(polynomial_GCD(f, g)); vh::step(); CHECK(r == w || r == -w, "gcd(" << a << " , " << b << ") = " << r << ", expected " << w << " up to sign"); }
void u_pairs(const string& name, vector<RP> A, vector<RP> B) {
    A = uniq(A); B = uniq(B); auto pa = make_shared<vector<RP>>(A), pb = make_shared<vector<RP>>(B); uint64_t k = B.size();
    vh::scope(name, A.size() * k, [=](uint64_t q) { MOD = 0; const RP &a = (*pa)[q / k], &b = (*pb)[q % k]; RP w = zgcd(a, b); u_one(a, b, w); vh::outcome(w.str()); vh::state(vh::mix(q) ^ vh::hstr(name)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pb)[q % k].str(); });
}
void u_triples(const string& name, vector<RP> H, vector<RP> A, bool multi = false) {
    H = uniq(H); A = uniq(A); auto ph = make_shared<vector<RP>>(H), pa = make_shared<vector<RP>>(A); auto tab = make_shared<map<uint64_t, RP>>(); uint64_t k = A.size();
    vh::scope(name, H.size() * k * k, [=](uint64_t q) { MOD = 0; const RP &h = (*ph)[q / k / k], &a = (*pa)[q / k % k], &b = (*pa)[q % k]; if (!tab->count(q % (k * k))) (*tab)[q % (k * k)] = zgcd(a, b); RP w = h * (*tab)[q % (k * k)]; u_one(h * a, h * b, w); if (multi) GZ<lex>{&lex::init, 1}.one(h * a, h * b, w); vh::state(vh::mix(q) ^ vh::hstr(name)); vh::outcome(w.str()); },
        [=](uint64_t q) { return "(" + (*ph)[q / k / k].str() + ") times (" + (*pa)[q / k % k].str() + ") and (" + (*pa)[q % k].str() + ")"; });
}
void zp_pairs(const string& name, uint64_t p, vector<RP> A, vector<RP> B) {
    MOD = p; for (auto* v : {&A, &B}) { for (auto& a : *v) a = a.red(); *v = uniq(*v); } auto pa = make_shared<vector<RP>>(A), pb = make_shared<vector<RP>>(B); uint64_t k = B.size();
    vh::scope(name, A.size() * k, [=](uint64_t q) { MOD = p; const RP &a = (*pa)[q / k], &b = (*pb)[q % k]; auto f = ulib<Zp>(a), g = ulib<Zp>(b); RP r = from(polynomial_GCD(f, g)), w = fgcd(a, b); vh::step(); CHECK(r == w, "gcd(" << a << " , " << b << ") mod " << p << " = " << r << ", expected " << w); vh::outcome(w.str()); vh::state(vh::mix(q) ^ vh::hstr(name)); MOD = 0; }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pb)[q % k].str() + " mod " + to_string(p); }); MOD = 0;
}
static vector<RP> thin(const vector<RP>& A, size_t n) { if (A.size() <= n) return A; vector<RP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(5); bool T = vh::thorough; 
        RZ p1("18446744073709551557"), p2("18446744073709551533"), p3("18446744073709551521"); // the primes the modular algorithm uses first
        static lex_<custom_var_order> lc(custom_var_order({X[2], X[0]})); static univariate_priority_order up1(X[1]); static grlex_<custom_var_order> gc(custom_var_order({X[2], X[1], X[0]}));
        // --- one variable
        u_pairs("u.all", dense(monos_box({3}), ints(-2, 2)), dense(monos_box({2}), T ? ints(-4, 4) : ints(-2, 2)));
        u_triples("u.products", dense(monos_box({2}), ints(-1, 2)), dense(monos_box({2}), T ? ints(-2, 2) : ints(-1, 1)));
        vector<RQ> bigs{RQ(0), RQ(1), RQ(p1), RQ(p1 / 2), RQ(-(p1 / 2)), RQ(p1 / 2 + 1), RQ(p1 * p2 / 2 + 1), RQ(-(p1 * p2 * p3))};
        { vector<RP> H, A; for (auto& h : dense(monos_box({1}), bigs)) if (!h.zero()) H.push_back(h); for (auto& a : dense(monos_box({1}), {RQ(0), RQ(1), RQ(-1), RQ(p1), RQ(p1 + 1)})) A.push_back(a); for (auto& a : dense(monos_box({2}), {RQ(-1), RQ(p1 * p2)})) A.push_back(a); u_triples("u.word", H, A, true); }
        { // roots that collide modulo the first primes: unlucky primes, and leading coefficients they divide
            vector<RQ> c{RQ(0), RQ(1), RQ(p1), RQ(p1 + 1), RQ(p2), RQ(p1 * p2), RQ(-p1 * p2 + 1), RQ(p1 * p2 * p3)}; vector<RP> L, F; RP x = RP::x(0, 1), o = RP::c(1, 1); for (auto& k : c) L.push_back(x - o * k); for (auto& k : {RQ(p1), RQ(p1 * p2)}) { L.push_back(x * k + o); L.push_back(x * k - o * RQ(2)); }
            for (size_t i = 0; i < L.size(); ++i) { F.push_back(L[i]); for (size_t j = i; j < L.size(); ++j) { F.push_back(L[i] * L[j]); if (T) for (size_t k = j; k < L.size(); ++k) F.push_back(L[i] * L[j] * L[k]); } }
            u_pairs("u.unlucky", F, F); vector<RP> G = F; for (auto& g : G) { RP s; for (auto& m : g.t) s.t[m.first] = m.second; g = s; } auto pa = make_shared<vector<RP>>(F); uint64_t k = F.size(); vh::scope("unlucky.lex", k * k, [=](uint64_t q) { MOD = 0; const RP &a = (*pa)[q / k], &b = (*pa)[q % k]; GZ<lex>{&lex::init, 1}.one(a, b, zgcd(a, b)); vh::state(vh::mix(q)); }, [=](uint64_t q) { return (*pa)[q / k].str() + " , " + (*pa)[q % k].str(); }); }
        { // accidental common divisors of the values at the heuristic evaluation point
            RP x = RP::x(0, 1), o = RP::c(1, 1); vector<RP> F, G; for (int s : {1, -1, 2, -2, 3, -3, 5}) F.push_back(x + o * RQ(s)); F.push_back(x * RQ(2) + o); F.push_back(x * x + x + o); F.push_back(x * x - o * RQ(2)); for (int a = 1; a <= (T ? 240 : 110); ++a) for (int b = -(T ? 480 : 230); b <= (T ? 480 : 230); ++b) G.push_back(x * RQ(a) + o * RQ(b)); for (int a : {1, 2}) for (int b = -5; b <= 5; ++b) for (int c = -(T ? 2000 : 300); c <= (T ? 2000 : 300); ++c) G.push_back(x * x * RQ(a) + x * RQ(b) + o * RQ(c)); u_pairs("u.accident", F, G); u_pairs("u.accident.rev", thin(G, 40000), vector<RP>(F.begin(), F.begin() + 4)); }
        // bit lengths around the heuristic method's threshold
        { vector<RQ> c; for (int b : {1, 31, 62, 63, 64, 65, 66, 127, 128}) { RZ z = RZ(1) << b; c.push_back(RQ(z)); c.push_back(RQ(z - 1)); c.push_back(RQ(-z - 1)); } vector<RP> A; RP x = RP::x(0, 1), o = RP::c(1, 1); for (auto& k : c) { A.push_back(x * x + x * k - o); A.push_back(x * k + o); A.push_back(x * x * k + x * k + o * (k + 1)); } u_triples("u.bits", {o, x + o, x * x * RQ(3) - o * RQ(RZ(1) << 63)}, A); }
        // --- prime fields
        for (uint64_t p : {2ull, 3ull}) zp_pairs("Zp" + to_string(p), p, dense(monos_box({p == 2 ? (T ? 7 : 6) : (T ? 4 : 3)}), ints(0, p - 1)), dense(monos_box({p == 2 ? (T ? 7 : 6) : (T ? 4 : 3)}), ints(0, p - 1)));
        for (uint64_t p : {5ull, 7ull}) zp_pairs("Zp" + to_string(p), p, dense(monos_box({T ? 3 : 2}), ints(0, p - 1)), dense(monos_box({2}), ints(0, p - 1)));
        { vector<RP> F; for (auto& a : dense(monos_box({2}), ints(-1, 1))) for (auto& b : dense(monos_box({1}), {RQ(1), RQ(-1), RQ(p1 / 2)})) F.push_back(a * b); zp_pairs("Zp.big", 18446744073709551557ull, F, F); }
        // --- two variables: everything sparse, both main-variable choices, every order
        auto S2 = sparse(monos_deg(2, 2), {RQ(-1), RQ(2)}, 2), S22 = sparse(monos_deg(2, 2), {RQ(1), RQ(-1), RQ(3)}, 3);
        pairs<lex>("lex.2v", &lex::init, 2, S2, T ? S22 : S2); pairs<grlex>("grlex.2v", &grlex::init, 2, S2, S2);
        auto H2 = sparse(monos_deg(2, 1), {RQ(1), RQ(-2)}, 2), A2 = sparse(monos_deg(2, 1), {RQ(1), RQ(-1), RQ(2)}, 2), K2 = dense(monos_deg(2, 1), ints(-1, 1));
        triples<lex>("lex.2v.products", &lex::init, 2, T ? S2 : H2, A2); triples<grlex>("grlex.2v.products", &grlex::init, 2, K2, T ? A2 : H2);
        // --- three variables, dependence patterns and orders
        auto S3 = sparse(monos_box({1, 1, 1}), {RQ(1), RQ(-2)}, 2); vector<RP> F3; RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3);
        for (auto& a : {x + y, x * z - o, y * RQ(2) + z, x * y + z * z, y - z, z + o, x * x - y * y, o * RQ(6), y * z + o * RQ(2), x + y + z}) F3.push_back(a);
        vector<RP> P3; for (size_t i = 0; i < F3.size(); ++i) for (size_t j = i; j < F3.size(); ++j) P3.push_back(F3[i] * F3[j]);
        pairs<lex>("lex.3v", &lex::init, 3, P3, P3); pairs<lex>("lex.3v.sparse", &lex::init, 3, S3, T ? S3 : sparse(monos_box({1, 1, 1}), {RQ(3)}, 2));
        pairs<lex_<custom_var_order>>("lexc.3v", &lc, 3, P3, P3); pairs<grlex>("grlex.3v", &grlex::init, 3, P3, T ? P3 : F3); pairs<grlex_<custom_var_order>>("grlexc.3v", &gc, 3, P3, T ? P3 : F3); pairs<univariate_priority_order>("up.3v", &up1, 3, P3, F3);
        triples<lex>("lex.3v.products", &lex::init, 3, T ? P3 : F3, F3); if (T) triples<lex_<custom_var_order>>("lexc.3v.products", &lc, 3, P3, F3);
        // --- two variables with coefficients the first primes make unlucky or singular
        { RP u = RP::x(0, 2), v = RP::x(1, 2), e = RP::c(1, 2); vector<RP> L; for (auto& k : {RQ(0), RQ(1), RQ(p1), RQ(p1 + 1), RQ(p1 * p2)}) { L.push_back(u - v * k); L.push_back(u - v - e * k); L.push_back(v - e * k); } L.push_back(u * v * RQ(p1) + e); L.push_back(u * RQ(p1 * p2) - v); L.push_back(u * (v * RQ(p1) + e) + v); L.push_back(u * u - v * RQ(p1 / 2) + e * RQ(p1 / 2 + 1));
          vector<RP> F; for (size_t i = 0; i < L.size(); ++i) for (size_t j = i; j < L.size(); ++j) F.push_back(L[i] * L[j]); pairs<lex>("lex.unlucky", &lex::init, 2, F, T ? F : L); pairs<lex>("lex.unlucky2", &lex::init, 2, vector<RP>(F.begin(), F.begin() + 60), F); }
        // --- every outcome of the evaluation-point draws: no draw changes the answer
        { auto prs = make_shared<vector<pair<RP, RP>>>(); vector<RP> D; for (auto& a : P3) if (a.t.size() < 7) D.push_back(a); for (size_t i = 0; i < D.size(); i += T ? 1 : 2) for (size_t j = i; j < D.size(); j += T ? 3 : 5) prs->push_back({D[i], D[j]});
          RP q1 = (x * y - o) * (x - z), q2 = (x * y - o) * (x + y + z); prs->push_back({q1 * (x + o), q2 * (y + z)}); prs->push_back({x * (y - o) * (z - o) + o, x * (y - o) + z}); prs->push_back({(x * (y * y - y) + z) * (x + y), (x * (y * y - y) + z) * (x - z)}); prs->push_back({(x * y + x * z + o) * (x * x * y - z), (x * y + x * z + o) * (x * z - y)});
          vector<unsigned char> menu{1, 2, 3, 5, 16 + 2}; uint64_t S = T ? 4 : 3, H = T ? 20 : 14, f1 = vrand::firsts(H, menu); int D3 = T ? 3 : 2;
          vh::scope("draws", prs->size() * S * f1, [=](uint64_t q) { MOD = 0; uint64_t i = q / f1 / S, st = q / f1 % S; auto& [a, b] = (*prs)[i]; static uint64_t last = ~0ull; static RP w; if (last != i) { w = zgcd(a, b); last = i; } auto f = lib<ZZ, lex>(a, &lex::init), g = lib<ZZ, lex>(b, &lex::init);
            uint64_t r = vrand::deviations(st, D3, H, menu, [&] { RP r = from(polynomial_GCD(f, g), 3); if (r != w && r != -w) { string c; for (auto x : vrand::C.choice) c += to_string(x) + " "; vh::fail("with draw choices [" + c + "] of stream " + to_string(st) + " gcd is " + r.str() + ", expected " + w.str()); } }, q % f1); vh::step(r); vh::aux(0, r); if (q % f1 == 0) vh::state(vh::mix(q)); }, [=](uint64_t q) { uint64_t i = q / f1 / S; return (*prs)[i].first.str() + " , " + (*prs)[i].second.str() + " draws " + to_string(q % (f1 * S)); }); vh::aux_names[0] = "draw_sequences"; }
        // gcd of monomials
        static auto M3 = monos_box({2, 2, 2}); vh::scope("monomials", M3.size() * M3.size(), [](uint64_t q) { auto &a = M3[q / M3.size()], &b = M3[q % M3.size()]; Mon w = a; for (int i = 0; i < 3; ++i) w[i] = min(a[i], b[i]); auto t = [&](auto* c) { Ord o = ord_of(*c); Mon r = mref(gcd(mono(a, c), mono(b, c)), 3, &o); vh::step(); CHECK(r == w, "gcd of monomials " << RP{{a, 1}} << " , " << RP{{b, 1}}); }; t(&lex::init); t(&grlex::init); t(&lc); t(&gc); t(&up1); }, [](uint64_t q) { return to_string(q); });
    });
}
