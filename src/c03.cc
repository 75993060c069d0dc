// C03: prime-field arithmetic agrees with integers modulo p for every word-size prime.
#include "harness.hh"
#include "ref.hh"
#include <clpoly/number.hh>
using clpoly::ZZ; using clpoly::Zp; typedef ref::Z Z; using ref::two;
static uint64_t mod(int64_t a, uint64_t p) { __int128 r = (__int128)a % (__int128)p; if (r < 0) r += p; return (uint64_t)r; }
static void is(const Zp& x, uint64_t e, uint64_t p, const char* w) { vh::step(); if (x.number() != e || x.prime() != p) { std::ostringstream o; o << w << " mod " << p << ": got " << x.number() << " (p=" << x.prime() << ") expected " << e; vh::fail(o.str()); } }
static uint64_t inv(uint64_t a, uint64_t p) { return ref::powmod(a, p - 2, p); }
static void ops(uint64_t a, uint64_t b, uint64_t p) {
    Zp x(a, p), y(b, p), t;
    is(x, a, p, "construct"); is(y, b, p, "construct");
    uint64_t s = (unsigned __int128)((unsigned __int128)a + b) % p, df = a >= b ? a - b : p - (b - a), m = ref::mulmod(a, b, p);
    is(x + y, s, p, "+"); is(x - y, df, p, "-"); is(x * y, m, p, "*"); is(-x, a ? p - a : 0, p, "neg");
    t = x; t += y; is(t, s, p, "+="); t = x; t -= y; is(t, df, p, "-="); t = x; t *= y; is(t, m, p, "*=");
    t = x; t += t; is(t, (unsigned __int128)((unsigned __int128)a + a) % p, p, "x+=x"); t = x; t -= t; is(t, 0, p, "x-=x"); t = x; t *= t; is(t, ref::mulmod(a, a, p), p, "x*=x");
    if (b) { uint64_t q = ref::mulmod(a, inv(b, p), p); is(y.inv(), inv(b, p), p, "inv"); is(x / y, q, p, "/"); t = x; t /= y; is(t, q, p, "/="); clpoly::__div(t, x, y); is(t, q, p, "__div"); Zp r(1, p); clpoly::__div(t, r, x, y); is(r, 0, p, "__div rem"); t = y; t /= t; is(t, 1, p, "x/=x"); }
    CHECK((x == y) == (a == b) && (x != y) == (a != b), "== of " << a << "," << b << " mod " << p);
    t = y; clpoly::addmul(t, x, y); is(t, (unsigned __int128)((unsigned __int128)m + b) % p, p, "addmul"); t = y; clpoly::submul(t, x, y); is(t, b >= m ? b - m : p - (m - b), p, "submul");
    CHECK(hash_value(x + y) == hash_value(Zp(s, p)), "hash");
}
int main(int c, char** v) {
    return vh::main_(c, v, [] {
        using namespace vh;
        // every residue pair for every prime below a bound
        static std::vector<uint64_t> P; uint64_t lim = thorough ? 300 : 130; for (uint64_t p = 2; p < lim; ++p) if (ref::is_prime_trial(p)) P.push_back(p);
        static std::vector<std::pair<uint64_t, uint64_t>> rows; for (uint64_t p : P) for (uint64_t a = 0; a < p; ++a) rows.push_back({p, a});
        scope("small_primes", rows.size(), [](uint64_t i) { auto [p, a] = rows[i]; for (uint64_t b = 0; b < p; ++b) ops(a, b, p); state(p * 1000 + a);
            Zp x(a, p); for (int64_t e = 0; e <= (int64_t)p + 2; ++e) is(pow(x, e), ref::powmod(a, e, p), p, "pow");
        }, [](uint64_t i) { return "p=" + std::to_string(rows[i].first) + " a=" + std::to_string(rows[i].second) + ", all b"; });
        // word-size boundary primes x boundary residues
        static std::vector<uint64_t> BP;
        auto near = [](Z z, int below, int above) { Z q = z; for (int i = 0; i < below; ++i) { do q -= 1; while (!ref::is_prime64(q.get_ui())); BP.push_back(q.get_ui()); } q = z - 1; for (int i = 0; i < above; ++i) { do q += 1; while (!ref::is_prime64(q.get_ui())); BP.push_back(q.get_ui()); } };
        int w = thorough ? 6 : 3;
        for (int k : {8, 15, 16, 24, 31, 32, 33, 47, 48, 53, 60, 61, 62, 63}) near(two(k), w, w);
        near(two(64), w, 0); for (uint64_t p : {998244353ull, 1000000007ull, 4611686018427387847ull, 2305843009213693951ull, 18446744069414584321ull}) if (ref::is_prime64(p)) BP.push_back(p);
        static auto residues = [](uint64_t p) { std::set<uint64_t> s; for (uint64_t k : {0ull, 1ull, 2ull, 3ull, 5ull}) { s.insert(k % p); s.insert((p - k) % p); s.insert((p / 2 + k) % p); s.insert((p / 3 + k) % p); s.insert((p / 7 * 5 + k) % p); } for (int b = 1; b < 64; ++b) { uint64_t t = 1ull << b; s.insert(t % p); s.insert((t - 1) % p); s.insert((t + 1) % p); } s.insert(0x9e3779b97f4a7c15ull % p); s.insert(0xaaaaaaaaaaaaaaaaull % p); s.insert(0x5555555555555555ull % p); return std::vector<uint64_t>(s.begin(), s.end()); };
        static std::vector<std::pair<uint64_t, uint64_t>> br; for (uint64_t p : BP) { auto rs = residues(p); for (size_t i = 0; i < rs.size(); ++i) br.push_back({p, rs[i]}); }
        scope("boundary_primes", br.size(), [](uint64_t i) { auto [p, a] = br[i]; for (uint64_t b : residues(p)) { ops(a, b, p); state(mix(p) ^ mix(a * 31 + 1) ^ mix(b * 7 + 3)); }
            Zp x(a, p); for (int64_t e : {0l, 1l, 2l, 3l, 31l, 63l, 64l, 65l, (1l << 31), (1l << 32) + 1, (1l << 62), INT64_MAX, (long)((p - 1) >> 1), (long)(p - 1)}) if (e >= 0) is(pow(x, e), ref::powmod(a, e, p), p, "pow"); },
            [](uint64_t i) { return "p=" + std::to_string(br[i].first) + " a=" + std::to_string(br[i].second); });
        // conversions: every integer form of a value maps to the residue of the value
        static std::vector<Z> V; for (Z z : std::vector<Z>{0, 1, 2, 3, 5, 7, 100, two(31) - 1, two(31), two(32) - 1, two(32), two(62), two(63) - 1, two(63), Z(two(63) + 1), two(64) - 1, two(64), Z(two(64) + 1), two(100), Z(two(127) + 3), ref::zpow(10, 50)}) { V.push_back(z); if (z != 0) V.push_back(-z); }
        static std::vector<uint64_t> CP; for (uint64_t p = 2; p < 60; ++p) if (ref::is_prime_trial(p)) CP.push_back(p); for (uint64_t p : BP) CP.push_back(p);
        scope("conversions", CP.size() * (V.size() + 241), [](uint64_t i) {
            Dec d(i); uint64_t p = CP[d(CP.size())], k = d(V.size() + 241); Z z = k < V.size() ? V[k] : Z((long)(k - V.size()) - 120); Z pp; mpz_set_ui(pp.get_mpz_t(), p); uint64_t e = mpz_get_ui(ref::fdiv_r(z, pp).get_mpz_t());
            ZZ x(z.get_str()); is(Zp(x, p), e, p, "Zp(ZZ)"); Zp t(1, p); t = x; is(t, e, p, "=ZZ");
            if (z.fits_slong_p()) { int64_t s = z.get_si(); is(Zp((int64_t)s, p), e, p, "Zp(int64)"); t = Zp(1, p); t = (int64_t)s; is(t, e, p, "=int64"); if (z.fits_sint_p()) is(Zp((int)s, p), e, p, "Zp(int)");
                for (uint64_t a : {(uint64_t)0, (uint64_t)1, p - 1, p / 2}) { Zp y(a, p); is(y * s, ref::mulmod(a, e, p), p, "Zp*int64"); is(s * y, ref::mulmod(a, e, p), p, "int64*Zp"); CHECK((y == s) == (a == e) && (s == y) == (a == e) && (y != s) == (a != e) && (s != y) == (a != e), "comparison of " << a << " mod " << p << " with " << s); step(4); } }
            if (z.fits_ulong_p()) is(Zp((uint64_t)z.get_ui(), p), e, p, "Zp(uint64)");
            Zp u(p); is(u, 0, p, "Zp(p)"); CHECK(!bool(u) && bool(Zp(1, p)) && (uint64_t)Zp(x, p) == e, "bool/uint64 conversion"); std::ostringstream o; o << Zp(x, p); CHECK(o.str() == std::to_string(e), "print");
            Zp::set_prime(p); Zp w; is(w, 0, p, "default after set_prime"); CHECK(Zp::cur_prime() == p, "cur_prime"); w = x; is(w, e, p, "= after set_prime"); state(mix(p) ^ hstr(z.get_str()));
        }, [](uint64_t i) { Dec d(i); uint64_t p = CP[d(CP.size())], k = d(V.size() + 241); Z z = k < V.size() ? V[k] : Z((long)(k - V.size()) - 120); return z.get_str() + " mod " + std::to_string(p); });
        // axioms over whole small fields: associativity, distributivity on all triples; sequences
        scope("axioms", P.size(), [](uint64_t i) { uint64_t p = P[i]; if (p > 31) return; for (uint64_t a = 0; a < p; ++a) for (uint64_t b = 0; b < p; ++b) for (uint64_t e = 0; e < p; ++e) { Zp x(a, p), y(b, p), z(e, p); CHECK((x + y) + z == x + (y + z) && (x * y) * z == x * (y * z) && x * (y + z) == x * y + x * z && x - y == x + (-y), "axioms mod " << p); step(4); } });
        // mixed fields in one history: a change of the default prime does not affect existing elements
        scope("prime_histories", CP.size() * CP.size(), [](uint64_t i) { Dec d(i); uint64_t p = CP[d(CP.size())], q = CP[d(CP.size())]; Zp::set_prime(p); Zp a; a = (int64_t)5; Zp b(7, p); Zp::set_prime(q); Zp c_; c_ = (int64_t)5; is(a, 5 % p, p, "old element"); is(a * b, ref::mulmod(5 % p, 7 % p, p), p, "old product"); is(a + b, (5 % p + 7 % p) % p, p, "old sum"); is(c_, 5 % q, q, "new element"); Zp t = c_; t = a; is(t, 5 % p, p, "assignment carries the field"); t *= b; is(t, ref::mulmod(5 % p, 7 % p, p), p, "product after assignment"); t.prime(q); t = (int64_t)-1; is(t, q - 1, q, "after re-setting the field"); is(t * t, 1 % q, q, "product after re-setting"); Zp z0; (void)z0; std::swap(t, a); is(t, 5 % p, p, "swap"); },
            [](uint64_t i) { Dec d(i); uint64_t p = CP[d(CP.size())], q = CP[d(CP.size())]; return std::to_string(p) + " then " + std::to_string(q); });
        // word-size primes search
        static std::vector<uint64_t> PN; for (uint64_t k = 0; k < (thorough ? 20000u : 4000u); ++k) PN.push_back(k); for (int b : {16, 24, 31, 32, 33, 53, 62, 63}) for (int64_t o = -40; o <= 40; ++o) PN.push_back((1ull << b) + o); for (uint64_t o = 60; o <= 400; ++o) PN.push_back(0 - o);
        scope("prime_search", PN.size(), [](uint64_t i) { uint64_t n = PN[i]; uint64_t g = clpoly::next_prime_64(n); CHECK(g > n && ref::is_prime64(g), "next_prime_64(" << n << ")=" << g); for (uint64_t k = n + 1; k < g; ++k) CHECK(!ref::is_prime64(k), "next_prime_64(" << n << ") skips " << k); Z z; mpz_set_ui(z.get_mpz_t(), n); CHECK(next_prime(ZZ(z.get_mpz_t())) == ZZ(g), "next_prime"); if (n > 2) { uint64_t h = clpoly::prev_prime_64(n); CHECK(h < n && ref::is_prime64(h), "prev_prime_64(" << n << ")=" << h); for (uint64_t k = h + 1; k < n; ++k) CHECK(!ref::is_prime64(k), "prev_prime_64(" << n << ") skips " << k); } else { bool t = false; try { clpoly::prev_prime_64(n); } catch (std::domain_error&) { t = true; } CHECK(t, "prev_prime_64(" << n << ") does not throw"); } step(3); state(n); },
            [](uint64_t i) { return std::to_string(PN[i]); });
        scope("prime_search_top", 59, [](uint64_t i) { uint64_t n = 0 - (uint64_t)(i + 1); bool t = false; try { clpoly::next_prime_64(n); } catch (std::overflow_error&) { t = true; } CHECK(t == (n >= 18446744073709551557ull), "next_prime_64(" << n << ") near 2^64"); });
    });
}
