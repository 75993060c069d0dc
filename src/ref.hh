// Reference arithmetic helpers: plain GMP classes, no CLPoly code.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <algorithm>
namespace ref {
typedef mpz_class Z; typedef mpq_class Q;
inline Z two(unsigned k) { Z r = 1; r <<= k; return r; }
inline Z fdiv_q(const Z& a, const Z& b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z fdiv_r(const Z& a, const Z& b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z zgcd(const Z& a, const Z& b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z zlcm(const Z& a, const Z& b) { Z r; mpz_lcm(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z zpow(const Z& a, unsigned long e) { Z r; mpz_pow_ui(r.get_mpz_t(), a.get_mpz_t(), e); return r; }
inline uint64_t mulmod(uint64_t a, uint64_t b, uint64_t p) { return (unsigned __int128)a * b % p; }
inline uint64_t powmod(uint64_t a, uint64_t e, uint64_t p) { uint64_t r = 1 % p; a %= p; while (e) { if (e & 1) r = mulmod(r, a, p); a = mulmod(a, a, p); e >>= 1; } return r; }
inline bool is_prime_trial(uint64_t n) { if (n < 2) return false; for (uint64_t d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
// deterministic Miller-Rabin for 64-bit
inline bool is_prime64(uint64_t n) {
    if (n < 2) return false;
    for (uint64_t q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % q == 0) return n == q; }
    uint64_t d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; ++s; }
    for (uint64_t a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
        uint64_t x = powmod(a, d, n); if (x == 1 || x == n - 1) continue;
        bool c = true; for (int i = 1; i < s; ++i) { x = mulmod(x, x, n); if (x == n - 1) { c = false; break; } }
        if (c) return false;
    }
    return true;
}
} // namespace ref
