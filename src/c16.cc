// C16: factorisation of rational polynomials: monic factors, content times factors is the input, irreducible, same factors as the integer factorisation.
#include "zfactor.hh"
using namespace rp; using namespace std; typedef vector<pair<RP, uint64_t>> Fac;
static string show(const Fac& f) { string s; for (auto& x : f) s += "[" + x.first.str() + "]^" + to_string(x.second) + " "; return s; }
static RP pos(const RP& a) { return a.t.rbegin()->second < 0 ? -a : a; }
static RP norm(const RP& a) { return prim(a); }
// content * factors == input; factors primitive (sign free), pairwise not associate, irreducible (or the known ones)
static void judge(const RP& a, const RP& c, Fac F, const Fac* known, int n) {
    vh::step(); if (a.zero()) { CHECK(c.zero() && F.empty(), "factorisation of 0: " << c << " " << show(F)); return; }
    CHECK(c.is_const() && !c.zero(), "content " << c); RP p = c;
    for (size_t i = 0; i < F.size(); ++i) { auto& f = F[i]; CHECK(!f.first.is_const() && f.second >= 1, "constant factor or zero multiplicity in " << show(F)); p = p * rpow(f.first, f.second, n); }
    CHECK(p == a, c << " * " << show(F) << " is not " << a); for (auto& f : F) f.first = norm(f.first); sort(F.begin(), F.end()); for (size_t i = 1; i < F.size(); ++i) CHECK(F[i].first != F[i - 1].first, "associate factors in " << show(F));
    if (known) { Fac G = *known; for (auto& g : G) g.first = norm(g.first); sort(G.begin(), G.end()); CHECK(F == G, "factorisation of " << a << " is " << show(F) << ", expected " << show(G)); } else for (auto& f : F) CHECK(zf::irr(norm(f.first), n), "factor " << f.first << " of " << a << " is reducible");
    vh::outcome(show(F));
}
template <class comp> static void one(const RP& a, const Fac* known, const comp* c, int n) { auto f = lib<QQ, comp>(a, c); auto r = factorize(f); Fac F; for (auto& x : r.factors) { F.push_back({from(x.first, n, "factor"), x.second}); CHECK(!x.first.empty() && x.first.front().second == QQ(1), "factor " << F.back().first << " of " << a << " is not monic"); }
    { RQ q = cref(r.content); CHECK(q.get_num() == zref(r.content.get_num()) && q.get_den() == zref(r.content.get_den()), "content is not a canonical fraction"); } judge(a, RP::c(cref(r.content), n), F, known, n); CHECK(from(f, n) == a, "operand changed");
    // the same factors with the same multiplicities as the integer factorisation of the cleared polynomial
    if (!a.zero()) { RZ L = 1; for (auto& t : a.t) mpz_lcm(L.get_mpz_t(), L.get_mpz_t(), t.second.get_den_mpz_t()); auto z = factorize(lib<ZZ, comp>(a * RQ(L), c)); Fac G; for (auto& x : z.factors) G.push_back({norm(from(x.first, n, "integer factor")), x.second}); for (auto& x : F) x.first = norm(x.first); sort(F.begin(), F.end()); sort(G.begin(), G.end()); CHECK(F == G, "rational factors " << show(F) << " differ from the integer factors " << show(G)); } }
static RP prod(const Fac& f, const RQ& c, int n) { RP a = RP::c(c, n); for (auto& x : f) a = a * rpow(x.first, x.second, n); return a; }
template <class comp> static void all(const string& name, const comp* c, int n, vector<RP> A) { auto pa = make_shared<vector<RP>>(uniq(A)); vh::scope(name, pa->size(), [=](uint64_t i) { MOD = 0; vrand::reset(0); one((*pa)[i], nullptr, c, n); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return (*pa)[i].str(); }); }
static vector<Fac> multisets(const vector<RP>& I, int size, uint64_t maxe) { vector<Fac> out; function<void(size_t, Fac, int)> rec = [&](size_t i, Fac f, int s) { if (i == I.size()) { if (!f.empty()) out.push_back(f); return; } rec(i + 1, f, s); for (uint64_t e = 1; e <= maxe && (int)e <= s; ++e) { Fac g = f; g.push_back({I[i], e}); rec(i + 1, g, s - e); } }; rec(0, {}, size); return out; }
static void want_irr(const vector<RP>& I, int n) { for (auto& f : I) if (!zf::irr(f, n)) { fprintf(stderr, "catalogue entry %s is reducible\n", f.str().c_str()); abort(); } }
static vector<RP> irrs(vector<RP> A, int n) { vector<RP> o; for (auto& a : A) if (!a.is_const() && a.icont() == 1 && zf::irr(a, n)) { RP p = pos(a); if (find(o.begin(), o.end(), p) == o.end()) o.push_back(p); } return o; }
static vector<RP> thin(const vector<RP>& A, size_t n) { if (A.size() <= n) return A; vector<RP> o; for (size_t i = 0; i < n; ++i) o.push_back(A[i * A.size() / n]); return o; }
template <class comp> static void known(const string& name, const comp* c, int n, vector<RP> I, int size, uint64_t maxe, vector<RQ> cs, size_t stride = 1) { want_irr(I, n); auto S = make_shared<vector<Fac>>(multisets(I, size, maxe)); uint64_t k = cs.size(); vh::scope(name, (S->size() + stride - 1) / stride, [=](uint64_t q) { MOD = 0; uint64_t i = q * stride; const Fac& f = (*S)[i]; vrand::reset(0); one(prod(f, cs[i % k], n), &f, c, n); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t q) { return show((*S)[q * stride]) + "* " + cs[q * stride % k].get_str(); }); }
static void draws(const string& name, int n, vector<Fac> S0, int depth, uint64_t hor) { auto S = make_shared<vector<Fac>>(S0); static const vector<unsigned char> menu{1, 2, 3, 5, 16 + 2}; vh::scope(name, S->size(), [=](uint64_t i) { MOD = 0; const Fac& f = (*S)[i]; RP a = prod(f, RQ(1), n); uint64_t r = vrand::deviations(i % 5, depth, hor, menu, [&] { one<lex>(a, &f, &lex::init, n); }); vh::aux(0, r); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return show((*S)[i]) + " all draws"; }); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(3); const bool U = true, V = vh::thorough; auto q = [](long a, long b) { RQ r(a, b); r.canonicalize(); return r; };
        static lex_<custom_var_order> lc(custom_var_order({rp::X[2], rp::X[0]})); static univariate_priority_order up(rp::X[1]);
        vector<RQ> cs{q(1, 1), q(-1, 1), q(1, 2), q(-3, 4), q(6, 1), q(-5, 6)}, cu{q(0, 1), q(1, 1), q(-1, 2), q(2, 3)}; if (V) { cu.push_back(q(-3, 1)); cu.push_back(q(5, 4)); } RZ P("1000000000000000000000000000057"), W("18446744073709551617"); vector<RQ> big{RQ(P) / RQ(W), RQ(-1) / RQ(P), RQ(W)};
        { // one variable
            RP x = RP::x(0, 1), o = RP::c(1, 1); all("1v.all", &lex::init, 1, dense(monos_box({3}), {q(0, 1), q(1, 1), q(-1, 2), q(2, 3), q(-3, 1)})); all("1v.all.deg5", &lex::init, 1, dense(monos_box({U ? 6 : 5}), U ? cu : vector<RQ>{q(0, 1), q(1, 1), q(-1, 2)})); all("1v.all.grlex", &grlex::init, 1, dense(monos_box({3}), cu)); all("1v.consts", &lex::init, 1, dense(monos_box({0}), {q(0, 1), q(1, 1), q(-1, 1), q(7, 3), q(-12, 5)}));
            vector<RP> I{x, x + o, x * q(2, 1) - o, x * q(3, 1) + o * q(5, 1), x * x + o, x * x - o * q(2, 1), x * x * q(2, 1) + x + o * q(3, 1), x * x * x - o * q(2, 1), x * x * x * x + o, x * RQ(P) - o}; known("1v.known", &lex::init, 1, I, V ? 6 : 4, 3, cs); known("1v.big", &lex::init, 1, I, 2, 2, big);
        }
        { // two variables
            RP x = RP::x(0, 2), y = RP::x(1, 2), o = RP::c(1, 2); all("2v.deg2", &lex::init, 2, dense(monos_deg(2, 2), U ? cu : vector<RQ>{q(0, 1), q(1, 1), q(-1, 2)})); all("2v.sparse", &lex::init, 2, sparse(monos_box({3, 2}), {q(1, 1), q(-1, 3), q(4, 9)}, V ? 5 : 4)); all("2v.grlex", &grlex::init, 2, dense(monos_deg(2, 2), {q(0, 1), q(1, 1), q(-2, 3)})); all("2v.up", &up, 2, dense(monos_deg(2, 2), {q(0, 1), q(1, 2), q(-2, 1)}));
            vector<RP> L{x, y, x + y, x * q(2, 1) - y * q(3, 1), x * q(2, 1) + y * q(3, 1) - o, y + o, x * y - o, x * y * y + o, (y * y - o) * x + o, x * x + y * y, x * x - y * q(2, 1), x * x * x + y * x + o, y * y * q(6, 1) * x + y * q(5, 1) + o, x * RQ(P) + y}; known("2v.known", &lex::init, 2, L, V ? 5 : 4, 3, cs); known("2v.known.grlex", &grlex::init, 2, L, 2, 2, cs); known("2v.known.up", &up, 2, L, V ? 4 : 3, 2, cs); known("2v.big", &lex::init, 2, L, 2, 1, big);
        }
        { // three variables
            RP x = RP::x(0, 3), y = RP::x(1, 3), z = RP::x(2, 3), o = RP::c(1, 3); all("3v.sparse", &lex::init, 3, sparse(monos_box({2, 1, 1}), {q(1, 1), q(-1, 2)}, V ? 6 : 4)); all("3v.sparse.custom", &lc, 3, sparse(monos_box({1, 1, 2}), {q(1, 3), q(-2, 1)}, 3));
            vector<RP> L{x, y, z, x + y + z, x * y - z, y * z - o, x * (y + z) + o, x * (y - z) - o * q(2, 1), x * x * (y + o) + z, x * x + y * z, y * q(2, 1) - z * q(3, 1), x * (y + o) * (z + o) - o}; known("3v.known", &lex::init, 3, L, V ? 5 : 4, 2, cs); known("3v.known.grlex", &grlex::init, 3, L, 2, 1, cs); known("3v.known.up", &up, 3, L, 2, 1, cs); known("3v.known.custom", &lc, 3, L, V ? 4 : 3, 2, cs);
        }
    });
}
