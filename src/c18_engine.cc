// C18 engine: thin wrapper over the dense prime-field arithmetic; compiled several
// times with different algorithm thresholds (each in its own namespace).
#include <clpoly/dense_upoly_zp.hh>
#include "c18.hh"
using clpoly::dense_upoly_zp; using clpoly::Zp; using clpoly::umonomial;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static dense_upoly_zp mk(const Vec& v, uint64_t p) { clpoly::upolynomial_<Zp> u; for (size_t i = v.size(); i-- > 0;) if (v[i]) u.push_back({umonomial((int64_t)i), Zp(v[i], p)}); return dense_upoly_zp(u, p); }
static Vec un(const dense_upoly_zp& d) { Vec v; for (int64_t i = 0; i <= d.deg(); ++i) v.push_back(d[i]); auto u = d.to_upoly(); size_t k = 0; for (auto& t : u) { if (t.first.deg() < 0 || t.first.deg() > d.deg() || t.second.number() != v[t.first.deg()] || t.second.number() == 0 || t.second.prime() != d.prime()) return Vec{~0ull, ~0ull}; ++k; } size_t nz = 0; for (auto c : v) nz += c != 0; if (nz != k) return Vec{~0ull, ~0ull, 1}; if (d.empty() != v.empty() || d.size() != v.size() || (v.size() && d.lead() != v.back())) return Vec{~0ull, 2}; return v; }
void CAT(eng_, ENG)(int op, const Vec& a, const Vec& b, uint64_t p, Vec& o1, Vec& o2) {
    dense_upoly_zp A = mk(a, p), B = mk(b, p), Q(p), R(p); bool chk = true;
    switch (op) {
    case MUL: dense_upoly_zp::mul(Q, A, B); o1 = un(Q); break;
    case MUL_AL: dense_upoly_zp::mul(A, A, B); o1 = un(A); chk = false; break;
    case MUL_BL: dense_upoly_zp::mul(B, A, B); o1 = un(B); chk = false; break;
    case SQR: dense_upoly_zp::mul(Q, A, A); o1 = un(Q); break;
    case SQR_AL: dense_upoly_zp::mul(A, A, A); o1 = un(A); chk = false; break;
    case DIV: dense_upoly_zp::divrem(Q, R, A, B); o1 = un(Q); o2 = un(R); break;
    case DIV_AL: dense_upoly_zp::divrem(Q, A, A, B); o1 = un(Q); o2 = un(A); chk = false; break;
    case DIV_BL: dense_upoly_zp::divrem(A, B, A, B); o1 = un(A); o2 = un(B); chk = false; break;
    case GCD: dense_upoly_zp::gcd(Q, A, B); o1 = un(Q); break;
    case GCD_AL: dense_upoly_zp::gcd(A, A, B); o1 = un(A); chk = false; break;
    case ADD: dense_upoly_zp::add(Q, A, B); o1 = un(Q); break;
    case ADD_AL: dense_upoly_zp::add(B, A, B); o1 = un(B); chk = false; break;
    case SUB: dense_upoly_zp::sub(Q, A, B); o1 = un(Q); break;
    case SUB_AL: dense_upoly_zp::sub(B, A, B); o1 = un(B); chk = false; break;
    case SUB_SELF: dense_upoly_zp::sub(A, A, A); o1 = un(A); chk = false; break;
    case SCAL: A.scalar_mul(b.empty() ? 0 : b[0]); o1 = un(A); chk = false; break;
    }
    if (chk && (un(A) != a || un(B) != b)) o1 = Vec{~0ull, ~0ull, ~0ull};
}
