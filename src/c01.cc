// C01: integers are exact and canonical for every operation, representation history and aliasing.
#include "harness.hh"
#include "ref.hh"
#include <cstring>
#include <clpoly/number.hh>
using clpoly::ZZ; typedef ref::Z Z;
using ref::two;

static std::vector<Z> A, B, C;   // full, medium, small alphabets
static void alphabets() {
    auto pm = [](std::vector<Z>& v, const Z& z) { v.push_back(z); if (z != 0) v.push_back(-z); };
    for (Z z : std::vector<Z>{Z(0), Z(1), Z(2), Z(3), Z(6), Z(7), Z(10), Z(12), two(31) - 1, two(31), two(32) - 1, two(32), Z("3037000499"), Z("3037000500"),
                two(53) + 1, two(62) - 1, two(62), two(62) + 1, two(63) - 2, two(63) - 1, two(63), Z(two(63) + 1), two(64) - 1, two(64), Z(two(64) + 1),
                Z("1000000000000000000"), Z("10000000000000000000"), two(65), two(95) - 1, two(126), two(127), Z(two(128) - 1), Z(two(64) * 3), two(63) * 6, ref::zpow(10, 40)}) pm(A, z);
    for (Z z : std::vector<Z>{Z(0), Z(1), Z(2), Z(3), two(31), Z("3037000500"), two(62), two(63) - 1, two(63), Z(two(63) + 1), two(64), Z(two(127) + 5)}) pm(B, z);
    C = {0, 1, -1, 2, two(32), two(62), two(63) - 1, -two(63), two(63), Z(-two(63) - 1), Z(two(64) + 3)};
}
static ZZ mk(const Z& z) { return ZZ(z.get_str()); }
// construct the value z through different histories
static const int NH = 8;
static ZZ mkh(const Z& z, int h) {
    static const ZZ big(ref::two(100).get_str());
    switch (h) {
    case 0: return mk(z);
    case 1: { ZZ t = mk(z); t += big; t -= big; return t; }                        // through the big representation
    case 2: { ZZ t = mk(z); ZZ u(std::move(t)); t = u; return t; }                  // moved-from then reassigned
    case 3: { ZZ t = big; t = mk(z); return t; }                                    // slot held a big value
    case 4: { ZZ t = big; const ZZ u = mk(z); t = u; return t; }
    case 5: { ZZ t(z.get_mpz_t()); ZZ u(7); u.swap(t); return u; }
    case 6: { ZZ t = mk(z); t <<= 70; t >>= 70; return t; }
    default: { ZZ t = mk(z); ZZ m = -t; return -m; }
    }
}
static Z val(const ZZ& x) { if (x.get_mpz_v()) return Z(x.get_mpz_v()); Z r; mpz_set_si(r.get_mpz_t(), x.get_val()); return r; }
// full observation of one integer against its mathematical value
static void same(const ZZ& x, const Z& z, const char* what) {
    vh::step();
    if (val(x) != z) vh::fail(std::string(what) + ": got " + val(x).get_str() + " expected " + z.get_str());
}
static void observe(const ZZ& x, const Z& z) {
    std::ostringstream o; o << x;
    CHECK(o.str() == z.get_str(), "prints " << o.str() << " expected " << z);
    ZZ f = mk(z);
    CHECK(x == f && f == x && !(x != f) && !(x < f) && !(x > f) && x <= f && x >= f, "not equal to a fresh " << z);
    CHECK(x.hash() == f.hash() && hash_value(x) == hash_value(f) && std::hash<ZZ>()(x) == std::hash<ZZ>()(f), "hash differs from a fresh equal value " << z);
    CHECK(x.sgn() == sgn(z) && clpoly::sgn(x) == sgn(z), "sgn of " << z);
    CHECK(x.is_zero() == (z == 0) && bool(x) == (z != 0) && x.is_one() == (z == 1) && x.is_odd() == (mpz_odd_p(z.get_mpz_t()) != 0), "predicates of " << z);
    vh::step(12);
}
template <class F> static bool throws_domain(F f) { try { f(); } catch (std::domain_error&) { return true; } return false; }

struct M { ZZ r[3]; Z m[3]; };
// operation table over three registers; returns false when the operation is not applicable (precondition)
static const int NOPS = 45 + 81 + 81 + 54 + 54 + 27 + 9 + 6 + 3 + 48 + 12 + 18;
static std::string opname(int o) {
    static const char* bin[] = {"+", "-", "*", "/", "%"};
    std::ostringstream s;
    auto r = [](int i) { return std::string("r") + char('0' + i); };
    if (o < 45) { s << r(o / 9 % 5 ? o % 9 / 3 : o % 9 / 3) << bin[o / 9] << "=" << r(o % 3); return s.str(); } o -= 45;
    if (o < 81) { s << r(o % 27 / 9) << "=" << r(o % 9 / 3) << bin[o / 27] << r(o % 3); return s.str(); } o -= 81;
    if (o < 81) { static const char* n[] = {"fdiv_q", "fdiv_r", "invert"}; s << n[o / 27] << "(" << r(o % 27 / 9) << "," << r(o % 9 / 3) << "," << r(o % 3) << ")"; return s.str(); } o -= 81;
    if (o < 54) { s << (o / 27 ? "submul(" : "addmul(") << r(o % 27 / 9) << "," << r(o % 9 / 3) << "," << r(o % 3) << ")"; return s.str(); } o -= 54;
    if (o < 54) { int p = o / 9; static const int q[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}}; s << "fdiv_qr(" << r(q[p][0]) << "," << r(q[p][1]) << "," << r(o % 9 / 3) << "," << r(o % 3) << ")"; return s.str(); } o -= 54;
    if (o < 27) { static const char* n[] = {"gcd", "lcm", "tdiv/%"}; s << r(o / 3 % 3) << "=" << n[o / 9] << "(r0..)" << o % 3; return s.str(); } o -= 27;
    if (o < 9) { s << r(o / 3) << "=-" << r(o % 3); return s.str(); } o -= 9;
    if (o < 6) { s << "move/swap" << o; return s.str(); } o -= 6;
    if (o < 3) { s << "abs" << o; return s.str(); } o -= 3;
    if (o < 48) { s << r(o / 16) << (o % 2 ? "<<=" : ">>=") << o % 16 / 2; return s.str(); } o -= 48;
    if (o < 12) { s << r(o / 4) << "=const" << o % 4; return s.str(); } o -= 12;
    s << "div" << o; return s.str();
}
static void apply(M& s, int o) {
    auto& r = s.r; auto& m = s.m;
    if (o < 45) {
        int k = o / 9, i = o % 9 / 3, j = o % 3;
        if (k >= 3 && m[j] == 0) { bool t = k == 3 ? throws_domain([&] { r[i] /= r[j]; }) : throws_domain([&] { r[i] %= r[j]; }); CHECK(t, "division by zero does not throw domain_error"); vh::step(); return; }
        Z a = m[i], b = m[j];
        switch (k) {
        case 0: r[i] += r[j]; m[i] = a + b; break;
        case 1: r[i] -= r[j]; m[i] = a - b; break;
        case 2: r[i] *= r[j]; m[i] = a * b; break;
        case 3: r[i] /= r[j]; m[i] = a / b; break;
        case 4: r[i] %= r[j]; m[i] = a % b; break;
        }
        return;
    } o -= 45;
    if (o < 81) { int k = o / 27, d = o % 27 / 9, i = o % 9 / 3, j = o % 3; Z a = m[i], b = m[j];
        if (k == 0) { r[d] = r[i] + r[j]; m[d] = a + b; } else if (k == 1) { r[d] = r[i] - r[j]; m[d] = a - b; } else { r[d] = r[i] * r[j]; m[d] = a * b; } return; } o -= 81;
    if (o < 81) { int k = o / 27, d = o % 27 / 9, i = o % 9 / 3, j = o % 3; Z a = m[i], b = m[j];
        if (k < 2) {
            if (b == 0) { bool t = k == 0 ? throws_domain([&] { ZZ::fdiv_q(r[d], r[i], r[j]); }) : throws_domain([&] { ZZ::fdiv_r(r[d], r[i], r[j]); }); CHECK(t, "floor division by zero does not throw domain_error"); vh::step(); return; }
            if (k == 0) { ZZ::fdiv_q(r[d], r[i], r[j]); m[d] = ref::fdiv_q(a, b); } else { ZZ::fdiv_r(r[d], r[i], r[j]); m[d] = ref::fdiv_r(a, b); }
        } else {
            if (b == 0) return;
            Z e; int ok = mpz_invert(e.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
            bool got = ZZ::invert(r[d], r[i], r[j]);
            CHECK(got == (ok != 0), "invert(" << a << " mod " << b << ") returns " << got);
            if (ok) { if (val(r[d]) != e) { Z v = val(r[d]); CHECK((v * a - 1) % b == 0 && v >= 0 && v < abs(b), "invert(" << a << " mod " << b << ") = " << v); } m[d] = val(r[d]); }
            else { r[d] = ZZ(5); m[d] = 5; }
        } return; } o -= 81;
    if (o < 54) { int k = o / 27, d = o % 27 / 9, i = o % 9 / 3, j = o % 3; Z a = m[i], b = m[j];
        if (k == 0) { r[d].addmul(r[i], r[j]); m[d] += a * b; } else { clpoly::submul(r[d], r[i], r[j]); m[d] -= a * b; } return; } o -= 54;
    if (o < 54) { int p = o / 9, i = o % 9 / 3, j = o % 3; static const int q[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}}; Z a = m[i], b = m[j];
        if (b == 0) { CHECK(throws_domain([&] { ZZ::fdiv_qr(r[q[p][0]], r[q[p][1]], r[i], r[j]); }), "floor division by zero does not throw domain_error"); vh::step(); return; }
        ZZ::fdiv_qr(r[q[p][0]], r[q[p][1]], r[i], r[j]); m[q[p][0]] = ref::fdiv_q(a, b); m[q[p][1]] = ref::fdiv_r(a, b); return; } o -= 54;
    if (o < 27) { int k = o / 9, d = o / 3 % 3, i = (o % 3), j = (o % 3 + 1) % 3; Z a = m[i], b = m[j];
        if (k == 0) { r[d] = gcd(r[i], r[j]); m[d] = ref::zgcd(a, b); } else if (k == 1) { r[d] = lcm(r[i], r[j]); m[d] = ref::zlcm(a, b); }
        else if (b != 0) { r[d] = r[i] - (r[i] / r[j]) * r[j] - (r[i] % r[j]) + r[j]; m[d] = b; } return; } o -= 27;
    if (o < 9) { int i = o / 3, j = o % 3; r[i] = -r[j]; m[i] = -Z(m[j]); return; } o -= 9;
    if (o < 6) { static const int q[3][2] = {{0, 1}, {1, 2}, {2, 0}}; int i = q[o / 2][0], j = q[o / 2][1];
        if (o % 2) { r[i].swap(r[j]); std::swap(m[i], m[j]); } else { r[i] = std::move(r[j]); m[i] = m[j]; r[j] = 9; m[j] = 9; } return; } o -= 6;
    if (o < 3) { r[o] = abs(r[o]); m[o] = abs(m[o]); return; } o -= 3;
    if (o < 48) { static const unsigned long sh[] = {0, 1, 31, 32, 62, 63, 64, 65}; int i = o / 16; unsigned long n = sh[o % 16 / 2];
        if (mpz_sizeinbase(m[i].get_mpz_t(), 2) > 2000) return;
        if (o % 2) { r[i] <<= n; m[i] <<= n; } else { r[i] >>= n; Z t; mpz_fdiv_q_2exp(t.get_mpz_t(), m[i].get_mpz_t(), n); m[i] = t; } return; } o -= 48;
    if (o < 12) { int i = o / 4; switch (o % 4) {
        case 0: r[i] = -5; m[i] = -5; break;
        case 1: r[i] = 18446744073709551615ul; m[i] = Z("18446744073709551615"); break;
        case 2: r[i] = 9223372036854775808ull; m[i] = Z("9223372036854775808"); break;
        default: r[i] = (long long)INT64_MIN; m[i] = Z("-9223372036854775808"); } return; } o -= 12;
    { int i = o / 6, j = (i + 1 + o % 2) % 3; if (m[j] == 0) { CHECK(throws_domain([&] { ZZ t = r[i] / r[j]; }) && throws_domain([&] { ZZ t = r[i] % r[j]; }), "division by zero does not throw domain_error"); return; }
      if (o % 6 / 2 == 0) { r[i] = r[i] / r[j]; m[i] = Z(m[i] / m[j]); } else if (o % 6 / 2 == 1) { r[j] = r[i] % r[j]; m[j] = Z(m[i] % m[j]); } else { ZZ q = r[i] / r[j]; r[i] = r[i] - q * r[j]; m[i] = Z(m[i] % m[j]); } }
}
static void check_state(M& s) { for (int i = 0; i < 3; ++i) { same(s.r[i], s.m[i], "register"); CHECK(s.r[i].hash() == mk(s.m[i]).hash(), "hash of register " << i << " = " << s.m[i] << " depends on its history"); } }
static void note_state(M& s) { vh::state(s.m[0].get_str(62) + "," + s.m[1].get_str(62) + "," + s.m[2].get_str(62)); }

int main(int c, char** v) {
    alphabets();
    return vh::main_(c, v, [] {
        using namespace vh;
        uint64_t n = A.size(), nb = B.size(), nc = C.size();
        scope("unary", n * NH, [=](uint64_t i) {
            Dec d(i); int h = d(NH); Z z = A[d(n)]; ZZ x = mkh(z, h);
            state(z.get_str() + "#" + std::to_string(h));
            same(x, z, "construction"); observe(x, z);
            same(-x, -z, "negation"); same(abs(x), abs(z), "abs");
            for (unsigned e : {0, 1, 2, 3, 4, 5, 7, 8, 31, 63, 64, 65}) same(pow(x, e), ref::zpow(z, e), "pow");
            for (unsigned long k : {0, 1, 2, 31, 32, 33, 61, 62, 63, 64, 65, 127, 128, 200}) {
                Z q; mpz_fdiv_q_2exp(q.get_mpz_t(), z.get_mpz_t(), k); Z l = z << k;
                same(x >> k, q, ">>"); same(x << k, l, "<<"); same(mkh(z, h) >> k, q, "rvalue >>"); same(mkh(z, h) << k, l, "rvalue <<");
            }
            for (uint64_t m : {1ull, 2ull, 3ull, 7ull, 10ull, 2147483647ull, 4294967296ull, 4294967297ull, 9223372036854775807ull, 9223372036854775808ull, 9223372036854775809ull, 18446744073709551557ull, 18446744073709551615ull}) {
                Z mm; mpz_set_ui(mm.get_mpz_t(), m); CHECK(x.fdiv_ui(m) == mpz_get_ui(ref::fdiv_r(z, mm).get_mpz_t()), "fdiv_ui(" << z << "," << m << ")"); step();
            }
            for (int b = 2; b <= 36; ++b) { size_t e = Z(abs(z)).get_str(b).size(), g = sizeinbase(x, b); CHECK(g >= e && g <= e + 1 && ((b & (b - 1)) || g == e), "sizeinbase(" << z << "," << b << ")=" << g); step(); }
            if (mpz_fits_slong_p(z.get_mpz_t())) { long q = z.get_si(); CHECK(x.get_si() == q, "get_si"); same(ZZ(q), z, "ZZ(long)"); same(ZZ((long long)q), z, "ZZ(long long)"); ZZ t = mkh(two(90), h % 2); t = q; same(t, z, "=long"); t = mk(two(80)); t = (long long)q; same(t, z, "=long long"); if (q == (int)q) { same(ZZ((int)q), z, "ZZ(int)"); t = mk(two(80)); t = (int)q; same(t, z, "=int"); } }
            if (mpz_fits_ulong_p(z.get_mpz_t())) { unsigned long q = z.get_ui(); same(ZZ(q), z, "ZZ(ulong)"); same(ZZ((unsigned long long)q), z, "ZZ(ulonglong)"); for (int k = 0; k < 2; ++k) { ZZ t = k ? mk(two(80)) : ZZ(3); t = q; same(t, z, "=ulong"); observe(t, z); t = k ? mk(two(80)) : ZZ(3); t = (unsigned long long)q; same(t, z, "=ulonglong"); } if (q == (unsigned)q) { same(ZZ((unsigned)q), z, "ZZ(uint)"); ZZ t = mk(two(80)); t = (unsigned)q; same(t, z, "=uint"); } }
            same(ZZ(z.get_mpz_t()), z, "ZZ(mpz)"); same(ZZ(z.get_str(16), 16), z, "ZZ(str,16)"); same(ZZ(z.get_str(36).c_str(), 36), z, "ZZ(str,36)");
            { std::istringstream is(z.get_str() + " 17"); ZZ t = mkh(two(99), h % 2), u; is >> t >> u; same(t, z, "stream in"); same(u, 17, "stream in"); observe(t, z); }
            { ZZ t(x); same(t, z, "copy"); ZZ u(std::move(t)); same(u, z, "move"); same(t, val(t), "x"); t = u; t = *&t; same(t, z, "self assign"); ZZ& w = t; t = std::move(w); same(t, z, "self move"); swap(t, t); same(t, z, "self swap"); t += t; same(t, z * 2, "x+=x"); t -= t; same(t, 0, "x-=x"); observe(t, 0); }
            { ZZ t(x); t *= t; same(t, z * z, "x*=x"); t = x; t.addmul(t, t); same(t, z + z * z, "x.addmul(x,x)"); t = x; t.submul(t, t); same(t, z - z * z, "x.submul(x,x)"); if (z != 0) { t = x; t /= t; same(t, 1, "x/=x"); t = x; t %= t; same(t, 0, "x%=x"); } }
        }, [=](uint64_t i) { Dec d(i); int h = d(NH); return A[d(n)].get_str() + " via history " + std::to_string(h); });
        scope("binary", n * n * 4, [=](uint64_t i) {
            Dec d(i); int h = d(4); Z a = A[d(n)], b = A[d(n)]; ZZ x = mkh(a, h & 1 ? 1 : 0), y = mkh(b, h & 2 ? 6 : 0);
            state(a.get_str(62) + "," + b.get_str(62));
            same(x + y, a + b, "+"); same(x - y, a - b, "-"); same(x * y, a * b, "*");
            ZZ t; t = x; t += y; same(t, a + b, "+="); observe(t, a + b); t = x; t -= y; same(t, a - b, "-="); observe(t, a - b); t = x; t *= y; same(t, a * b, "*=");
            same(gcd(x, y), ref::zgcd(a, b), "gcd"); same(lcm(x, y), ref::zlcm(a, b), "lcm");
            CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "comparison of " << a << " and " << b); step(6);
            if (b == 0) {
                CHECK(throws_domain([&] { ZZ q = x / y; }), a << "/0 does not throw domain_error"); CHECK(throws_domain([&] { ZZ q = x % y; }), a << "%0 does not throw domain_error");
                CHECK(throws_domain([&] { t /= y; }), "/=0"); CHECK(throws_domain([&] { t %= y; }), "%=0"); same(t, a * b, "operand after a rejected division");
                ZZ q, r; CHECK(throws_domain([&] { ZZ::fdiv_q(q, x, y); }) && throws_domain([&] { ZZ::fdiv_r(q, x, y); }) && throws_domain([&] { ZZ::fdiv_qr(q, r, x, y); }), "floor division of " << a << " by 0 does not throw domain_error"); step(7);
            } else {
                same(x / y, a / b, "/"); same(x % y, a % b, "%"); t = x; t /= y; same(t, a / b, "/="); observe(t, a / b); t = x; t %= y; same(t, a % b, "%="); observe(t, a % b);
                for (int k = 0; k < 2; ++k) { ZZ q = k ? mk(two(90)) : ZZ(1), r = k ? mk(two(91)) : ZZ(2); ZZ::fdiv_qr(q, r, x, y); same(q, ref::fdiv_q(a, b), "fdiv_qr q"); same(r, ref::fdiv_r(a, b), "fdiv_qr r"); observe(q, ref::fdiv_q(a, b)); observe(r, ref::fdiv_r(a, b));
                    q = k ? mk(two(90)) : ZZ(1); ZZ::fdiv_q(q, x, y); same(q, ref::fdiv_q(a, b), "fdiv_q"); observe(q, ref::fdiv_q(a, b)); r = k ? mk(two(90)) : ZZ(1); ZZ::fdiv_r(r, x, y); same(r, ref::fdiv_r(a, b), "fdiv_r"); observe(r, ref::fdiv_r(a, b));
                    clpoly::__div(q, x, y); same(q, ref::fdiv_q(a, b), "__div"); clpoly::__div(q, r, x, y); same(r, ref::fdiv_r(a, b), "__div r"); }
            }
            same(x, a, "left operand changed"); same(y, b, "right operand changed");
            outcome(Z(a + b).get_str(62) + Z(a * b).get_str(62));
        }, [=](uint64_t i) { Dec d(i); int h = d(4); Z a = A[d(n)], b = A[d(n)]; return a.get_str() + " , " + b.get_str() + " h" + std::to_string(h); });
        scope("fused", n * n * n, [=](uint64_t i) {
            Dec d(i); Z a = A[d(n)], b = A[d(n)], e = A[d(n)]; ZZ x = mk(a), y = mk(b), z = mk(e), t = z;
            t.addmul(x, y); same(t, e + a * b, "addmul"); CHECK(t.hash() == mk(e + a * b).hash(), "addmul leaves a non-canonical value");
            t = z; t.submul(x, y); same(t, e - a * b, "submul"); CHECK(t.hash() == mk(e - a * b).hash(), "submul leaves a non-canonical value");
        }, [=](uint64_t i) { Dec d(i); Z a = A[d(n)], b = A[d(n)], e = A[d(n)]; return e.get_str() + " +- " + a.get_str() + "*" + b.get_str(); });
        // every register-machine operation, with every aliasing pattern, from every triple
        scope("machine1", nb * nb * nb, [=](uint64_t i) {
            Dec d(i); Z a = B[d(nb)], b = B[d(nb)], e = B[d(nb)];
            for (int o = 0; o < NOPS; ++o) { M s; s.r[0] = mk(a); s.r[1] = mk(b); s.r[2] = mk(e); s.m[0] = a; s.m[1] = b; s.m[2] = e;
                try { apply(s, o); check_state(s); } catch (Fail& f) { fail(opname(o) + " from (" + a.get_str() + "," + b.get_str() + "," + e.get_str() + "): " + f.msg); } }
            state(a.get_str(62) + "," + b.get_str(62) + "," + e.get_str(62));
        }, [=](uint64_t i) { Dec d(i); Z a = B[d(nb)], b = B[d(nb)], e = B[d(nb)]; return "all ops from (" + a.get_str() + "," + b.get_str() + "," + e.get_str() + ")"; });
        // all two-step sequences
        std::vector<Z> T = thorough ? C : std::vector<Z>{1, two(63) - 1, -two(63), two(63), Z(two(64) + 3)};
        uint64_t nt = T.size();
        scope("machine2", nt * nt * nt * NOPS, [=](uint64_t i) {
            Dec d(i); int o1 = d(NOPS); Z a = T[d(nt)], b = T[d(nt)], e = T[d(nt)];
            M s1; s1.r[0] = mk(a); s1.r[1] = mk(b); s1.r[2] = mk(e); s1.m[0] = a; s1.m[1] = b; s1.m[2] = e;
            apply(s1, o1); check_state(s1); note_state(s1);
            for (int o = 0; o < NOPS; o += 1) { M s; for (int k = 0; k < 3; ++k) { s.r[k] = s1.r[k]; s.m[k] = s1.m[k]; }
                try { apply(s, o); check_state(s); } catch (Fail& f) { fail(opname(o1) + "; " + opname(o) + " from (" + a.get_str() + "," + b.get_str() + "," + e.get_str() + "): " + f.msg); } }
        }, [=](uint64_t i) { Dec d(i); int o1 = d(NOPS); Z a = T[d(nt)], b = T[d(nt)], e = T[d(nt)]; return opname(o1) + " then all ops from (" + a.get_str() + "," + b.get_str() + "," + e.get_str() + ")"; });
        // all small dividend/divisor pairs and parsing of all short strings
        scope("grid", 161 * 161, [=](uint64_t i) {
            Dec d(i); long a = (long)d(161) - 80, b = (long)d(161) - 80; ZZ x(a), y(b); Z A_(a), B_(b);
            same(x + y, A_ + B_, "+"); same(x - y, A_ - B_, "-"); same(x * y, A_ * B_, "*"); same(gcd(x, y), ref::zgcd(A_, B_), "gcd"); same(lcm(x, y), ref::zlcm(A_, B_), "lcm");
            if (b) { same(x / y, A_ / B_, "/"); same(x % y, A_ % B_, "%"); ZZ q, r; ZZ::fdiv_qr(q, r, x, y); same(q, ref::fdiv_q(A_, B_), "fq"); same(r, ref::fdiv_r(A_, B_), "fr"); ZZ inv; Z e; bool ok = mpz_invert(e.get_mpz_t(), A_.get_mpz_t(), B_.get_mpz_t()); CHECK(ZZ::invert(inv, x, y) == ok, "invert " << a << " mod " << b); if (ok) same(inv, e, "invert"); }
            CHECK(clpoly::sgn(x - y) == (a > b) - (a < b), "sgn");
        }, [](uint64_t i) { Dec d(i); long a = (long)d(161) - 80, b = (long)d(161) - 80; return std::to_string(a) + "," + std::to_string(b); });
        static const char al[] = "019a-+ x";
        scope("parse", ipow(8, 5), [=](uint64_t i) {
            Dec d(i); std::string s; for (int k = 0; k < 5; ++k) s += al[d(8)]; while (!s.empty() && s.back() == 'x') s.pop_back();
            Z e; bool ok = mpz_set_str(e.get_mpz_t(), s.c_str(), 10) == 0; bool got; ZZ t(77);
            try { t = ZZ(s); got = true; } catch (std::invalid_argument&) { got = false; }
            CHECK(got == ok, "parsing '" << s << "' accepted=" << got); if (ok) same(t, e, "parse"); else same(t, 77, "target after rejected parse");
        }, [](uint64_t i) { Dec d(i); std::string s; for (int k = 0; k < 5; ++k) s += al[d(8)]; return "'" + s + "'"; });
    });
}
