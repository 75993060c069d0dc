// dense reference polynomials over Z/p: coefficient vectors, lowest degree first
#pragma once
#include "ref.hh"
#include <vector>
#include <sstream>
typedef std::vector<uint64_t> Vec;
namespace zv { using namespace std;
inline uint64_t mm(uint64_t a, uint64_t b, uint64_t p) { return p >> 32 ? (uint64_t)((unsigned __int128)a * b % p) : a * b % p; }
inline uint64_t aa(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)(((unsigned __int128)a + b) % p); }
inline uint64_t iv(uint64_t a, uint64_t p) { return ref::powmod(a, p - 2, p); }
inline void strip(Vec& v) { while (!v.empty() && !v.back()) v.pop_back(); }
inline Vec rmul(const Vec& a, const Vec& b, uint64_t p) { if (a.empty() || b.empty()) return {}; Vec r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j) r[i + j] = p >> 63 ? aa(r[i + j], mm(a[i], b[j], p), p) : (r[i + j] + mm(a[i], b[j], p)) % p; strip(r); return r; }
inline Vec radd(const Vec& a, const Vec& b, uint64_t p, bool sub = false) { Vec r(max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) { uint64_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; r[i] = aa(x, sub ? (y ? p - y : 0) : y, p); } strip(r); return r; }
inline void rdiv(Vec a, const Vec& b, uint64_t p, Vec& q, Vec& r) { q.clear(); if (a.size() >= b.size()) q.assign(a.size() - b.size() + 1, 0); uint64_t l = iv(b.back(), p); for (size_t k = q.size(); k-- > 0;) { uint64_t c = q[k] = mm(a[k + b.size() - 1], l, p); if (c) for (size_t j = 0; j < b.size(); ++j) a[k + j] = aa(a[k + j], p - mm(c, b[j], p), p); } strip(q); strip(a); r = a; }
inline Vec monic(Vec a, uint64_t p) { if (a.empty()) return a; uint64_t l = iv(a.back(), p); for (auto& c : a) c = mm(c, l, p); return a; }
inline Vec rgcd(Vec a, Vec b, uint64_t p) { Vec q, r; while (!b.empty()) { rdiv(a, b, p, q, r); a = b; b = r; } return monic(a, p); }
inline string str(const Vec& v) { ostringstream o; o << "["; for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? "," : "") << v[i]; if (v.size() > 40) o << ",..(" << v.size() << ")"; o << "]"; return o.str(); }
}
