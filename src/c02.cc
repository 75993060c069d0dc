// C02: rationals are exact and always in lowest terms with a positive denominator.
#include "harness.hh"
#include "ref.hh"
#include <cstring>
#include <clpoly/number.hh>
using clpoly::ZZ; using clpoly::QQ; typedef ref::Z Z; typedef ref::Q Q;
using ref::two;
static std::vector<Z> A, B; static std::vector<Q> R, RS;
static ZZ mk(const Z& z) { return ZZ(z.get_str()); }
static Z val(const ZZ& x) { if (x.get_mpz_v()) return Z(x.get_mpz_v()); Z r; mpz_set_si(r.get_mpz_t(), x.get_val()); return r; }
static Q q(const Z& a, const Z& b) { Q r(a, b); r.canonicalize(); return r; }
static void same(const QQ& x, const Q& e, const char* w) {
    vh::step();
    if (val(x.get_num()) != e.get_num() || val(x.get_den()) != e.get_den())
        vh::fail(std::string(w) + ": got " + val(x.num()).get_str() + "/" + val(x.den()).get_str() + " expected " + e.get_str());
}
static void observe(const QQ& x, const Q& e) {
    same(x, e, "value");
    std::ostringstream o; o << x; CHECK(o.str() == e.get_str(), "prints " << o.str() << " expected " << e);
    QQ f(mk(e.get_num()), mk(e.get_den()));
    CHECK(x == f && !(x != f) && !(x < f) && !(x > f) && x <= f && x >= f && x.hash() == f.hash() && hash_value(x) == f.hash() && std::hash<QQ>()(x) == f.hash(), "not equal/hash to fresh " << e);
    CHECK(clpoly::sgn(x) == sgn(e) && bool(x) == (e != 0) && x.is_zero() == (e == 0), "sgn/zero of " << e);
    vh::step(9);
}
template <class F> static bool throws_domain(F f) { try { f(); } catch (std::domain_error&) { return true; } return false; }
static QQ mq(const Q& e) { return QQ(mk(e.get_num()), mk(e.get_den())); }

int main(int c, char** v) {
    for (Z z : std::vector<Z>{0, 1, 2, 3, 4, 6, 10, 12, two(31), two(32) - 1, Z("3037000500"), two(62), two(63) - 1, two(63), Z(two(63) + 1), two(64), Z(two(64) * 3), ref::zpow(6, 40), two(127) - 1}) { A.push_back(z); if (z != 0) A.push_back(-z); }
    for (long a = -9; a <= 9; ++a) for (long b = 1; b <= 9; ++b) if (ref::zgcd(a, b) == 1) RS.push_back(q(a, b));
    std::set<std::string> seen;
    for (auto& a : A) for (auto& b : A) if (b != 0) { Q r = q(a, b); if (seen.insert(r.get_str()).second) R.push_back(r); }
    return vh::main_(c, v, [] {
        using namespace vh;
        uint64_t n = A.size();
        scope("construct", n * n, [=](uint64_t i) {
            Dec d(i); Z a = A[d(n)], b = A[d(n)]; ZZ x = mk(a), y = mk(b);
            state(a.get_str(62) + "/" + b.get_str(62));
            std::string txt = a.get_str() + "/" + b.get_str();
            if (b == 0) {
                CHECK(throws_domain([&] { QQ t(x, y); }), "zero denominator accepted");
                QQ t(3, 4); std::istringstream is(txt); bool th = throws_domain([&] { is >> t; });
                CHECK(th, "reading '" << txt << "' does not report the zero denominator");
                return;
            }
            Q e = q(a, b); observe(QQ(x, y), e); outcome(e.get_str());
            QQ t; clpoly::__div(t, x, y); same(t, e, "ZZ/ZZ to QQ"); QQ r(5); clpoly::__div(t, r, x, y); same(t, e, "ZZ/ZZ to QQ"); same(r, 0, "remainder");
            if (a.fits_slong_p() && b.fits_slong_p()) observe(QQ((long long)a.get_si(), (long long)b.get_si()), e);
            if (b == 1) { observe(QQ(x), e); if (a.fits_slong_p()) { observe(QQ((long)a.get_si()), e); observe(QQ((long long)a.get_si()), e); QQ u(2, 7); u = (long long)a.get_si(); observe(u, e); } if (a.fits_sint_p()) observe(QQ((int)a.get_si()), e); }
            std::istringstream is(txt + " 5/-10 -0/7"); QQ u(9), w, z; is >> u >> w >> z; observe(u, e); observe(w, q(-1, 2)); observe(z, 0);
            t = QQ(x, y); t.canonicalize(); observe(t, e);
            observe(-t, Q(-e)); observe(abs(t), Q(abs(e)));
            for (unsigned k : {0, 1, 2, 3, 5, 64}) { Q pe; mpz_pow_ui(pe.get_num_mpz_t(), e.get_num_mpz_t(), k); mpz_pow_ui(pe.get_den_mpz_t(), e.get_den_mpz_t(), k); observe(pow(t, k), pe); }
            QQ m(std::move(t)); observe(m, e); t = m; observe(t, e); t = *&t; observe(t, e); QQ& tt = t; t = std::move(tt); observe(t, e); swap(t, m); m.swap(t);
            t += t; observe(t, Q(e + e)); t = m; t -= t; observe(t, 0); t = m; t *= t; observe(t, Q(e * e)); t = m; if (e != 0) { t /= t; observe(t, 1); }
        }, [=](uint64_t i) { Dec d(i); Z a = A[d(n)], b = A[d(n)]; return a.get_str() + "/" + b.get_str(); });
        auto pairs = [=](const std::vector<Q>& L, const char* nm) {
            uint64_t k = L.size();
            scope(nm, k * k, [=](uint64_t i) {
                Dec d(i); Q a = L[d(k)], b = L[d(k)]; QQ x = mq(a), y = mq(b), t;
                same(x + y, Q(a + b), "+"); same(x - y, Q(a - b), "-"); same(x * y, Q(a * b), "*");
                t = x; t += y; same(t, Q(a + b), "+="); t = x; t -= y; same(t, Q(a - b), "-="); t = x; t *= y; same(t, Q(a * b), "*=");
                if (b == 0) { CHECK(throws_domain([&] { QQ z = x / y; }) && throws_domain([&] { t /= y; }), "division by zero accepted"); same(t, Q(a * b), "operand after rejected division"); }
                else { same(x / y, Q(a / b), "/"); t = x; t /= y; same(t, Q(a / b), "/="); }
                CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparison " << a << " , " << b); step(6);
                CHECK((x + y).hash() == mq(Q(a + b)).hash(), "hash after +");
                state(a.get_str(62) + "," + b.get_str(62));
            }, [=](uint64_t i) { Dec d(i); Q a = L[d(k)], b = L[d(k)]; return a.get_str() + " , " + b.get_str(); });
        };
        pairs(R, "pairs");
        // all operation sequences of length 3 (4 thorough) over an accumulator
        int depth = thorough ? 4 : 3; uint64_t ns = 24; 
        scope("sequences", ipow(4 * ns, depth), [=](uint64_t i) {
            static const std::vector<Q> L = [] { std::vector<Q> l; for (auto& x : std::vector<Q>{0, 1, -1, 2, q(1, 2), q(-2, 3), q(5, 6), q(-7, 12), q(two(32), 3), q(3, two(32)), q(-two(63), 1), q(1, two(63)), q(two(63) - 1, 5), q(-1, two(64)), q(two(64), 7), q(10, 9), q(-9, 10), 4, q(1, 4), q(two(62), two(62) - 1), q(-3, two(31)), q(6, 35), 8, q(-25, 21)}) l.push_back(x); return l; }();
            Dec d(i); Q e = 1; QQ x(1);
            for (int k = 0; k < depth; ++k) { int o = d(4); Q b = L[d(ns)]; QQ y = mq(b); switch (o) { case 0: x += y; e += b; break; case 1: x = y - x; e = b - e; break; case 2: x *= y; e *= b; break; default: if (b == 0) continue; x /= y; e /= b; } }
            same(x, e, "after sequence");
            state(e.get_str(62));
        }, [=](uint64_t i) { return "sequence #" + std::to_string(i); });
        pairs(RS, "smallgrid");
    });
}
