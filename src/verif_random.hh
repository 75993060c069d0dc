// Controlled randomness: included before every source file of a check that needs it
// (g++ -include).  The standard engines, distributions, random_device and rand() the
// library draws from are renamed to the classes below, whose every draw asks the
// explorer; the library's source is compiled unchanged.
#pragma once
#include <bits/stdc++.h>
namespace vrand {
// choice at draw k: 0 = the default stream, otherwise an entry of the menu
struct Ctl { uint64_t stream = 0, n = 0, last = 0; std::vector<unsigned char> choice; std::vector<uint64_t> forced; bool use_forced = false; };
inline Ctl C;
enum { MENU = 6 };   // default, lo, lo+1, hi, middle, same as previous draw
inline std::vector<uint64_t> width;   // of the draws of the current run
inline uint64_t h(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t draw(uint64_t lo, uint64_t hi) {   // inclusive
    uint64_t k = C.n++, w = hi - lo, r;
    unsigned char c = k < C.choice.size() ? C.choice[k] : 0;
    switch (c) {
    default: { uint64_t x = h(h(C.stream) ^ (k + 1)); r = w == UINT64_MAX ? x : lo + x % (w + 1); break; }
    case 1: r = lo; break;
    case 2: r = lo + (w ? 1 : 0); break;
    case 3: r = hi; break;
    case 4: r = lo + w / 2; break;
    case 5: r = C.last < lo || C.last > hi ? hi - (w ? 1 : 0) : C.last; break;
    }
    if (C.use_forced) { width.push_back(w); if (k < C.forced.size()) r = lo + C.forced[k]; }
    if (c >= 16) r = lo + (uint64_t)(c - 16) % (w == UINT64_MAX ? w : w + 1);   // explicit small offset
    return C.last = r;
}
inline void reset(uint64_t stream = 0) { C = Ctl(); C.stream = stream; }
inline void reset(uint64_t stream, const std::vector<unsigned char>& ch) { C = Ctl(); C.stream = stream; C.choice = ch; }
// Run f under every draw sequence that deviates from the default stream at no more than
// `depth` of the first `horizon` draws (deviations range over the menu).  Returns runs.
// With first >= 0 only the sequences whose first deviation is entry `first` of
// (position, menu) are run, so that one exploration can be split into many cases.
template <class F> uint64_t deviations(uint64_t stream, int depth, uint64_t horizon, const std::vector<unsigned char>& menu, F f, int64_t first = -1) {
    uint64_t runs = 0; std::vector<unsigned char> ch; uint64_t skip = 0;
    std::function<void(size_t, int)> rec = [&](size_t from, int left) {
        reset(stream, ch); f(); if (C.n < ch.size()) ++skip; ++runs; uint64_t n = std::min<uint64_t>(C.n, horizon);
        if (!left || C.n < ch.size()) return; auto save = ch;
        for (size_t k = from; k < n; ++k) for (auto c : menu) { ch = save; ch.resize(k + 1, 0); ch[k] = c; rec(k + 1, left - 1); }
        ch = save;
    };
    if (first < 0) rec(0, depth);
    else if (first == 0) rec(0, 0);
    else { size_t k = (first - 1) / menu.size(); ch.assign(k + 1, 0); ch[k] = menu[(first - 1) % menu.size()]; rec(k + 1, depth - 1); }
    reset(stream); return runs - skip;
}
// Run f under every sequence of values of its first `horizon` draws; a draw from a range of more
// than `cap` values takes the first cap/2 and the last cap/2 values of it.
template <class F> uint64_t all(uint64_t stream, uint64_t horizon, uint64_t cap, F f) {
    uint64_t runs = 0; std::vector<uint64_t> pre;
    std::function<void()> rec = [&]() {
        size_t from = pre.size(); reset(stream); C.forced = pre; C.use_forced = true; width.clear(); f(); ++runs; auto w = width; uint64_t n = std::min<uint64_t>(w.size(), horizon);
        // the values the default stream took are covered by this run; branch on the others
        std::vector<uint64_t> took; { for (size_t k = 0; k < n; ++k) took.push_back(w[k] == UINT64_MAX ? h(h(stream) ^ (k + 1)) : h(h(stream) ^ (k + 1)) % (w[k] + 1)); for (size_t k = 0; k < from && k < n; ++k) took[k] = pre[k]; }
        auto save = pre; for (size_t k = from; k < n; ++k) { auto one = [&](uint64_t v) { if (v == took[k]) return; pre.assign(took.begin(), took.begin() + k); pre.push_back(v); rec(); }; if (w[k] < cap) for (uint64_t v = 0; v <= w[k]; ++v) one(v); else for (uint64_t i = 0; i < cap / 2; ++i) { one(i); one(w[k] - i); } } pre = save;
    };
    rec(); reset(stream); return runs;
}
inline uint64_t firsts(uint64_t horizon, const std::vector<unsigned char>& menu) { return 1 + horizon * menu.size(); }
}
namespace std {
struct vr_random_device { typedef unsigned int result_type; vr_random_device() {} explicit vr_random_device(const string&) {} result_type operator()() { return 12345u; } static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0u; } double entropy() const { return 32; } };
template <class U> struct vr_engine {
    typedef U result_type; static constexpr U default_seed = 5489u; vr_engine() {} explicit vr_engine(U) {} template <class S, class = enable_if_t<is_class_v<S> && !is_same_v<S, vr_engine>>> explicit vr_engine(S&) {}
    void seed(U = 0) {} template <class S, class = enable_if_t<is_class_v<S>>> void seed(S&) {} void discard(unsigned long long) {}
    static constexpr U min() { return 0; } static constexpr U max() { return ~U(0); } U operator()() { return (U)vrand::draw(0, max()); }
};
typedef vr_engine<uint32_t> vr_mt19937; typedef vr_engine<uint64_t> vr_mt19937_64;
template <class I = int> struct vr_uniform_int_distribution {
    typedef I result_type; typedef vr_uniform_int_distribution param_type; I lo, hi; vr_uniform_int_distribution(I a = 0, I b = numeric_limits<I>::max()) : lo(a), hi(b) { if (a > b) { fprintf(stderr, "uniform_int_distribution: empty range\n"); abort(); } }
    template <class G> I operator()(G&) { return (I)((uint64_t)lo + vrand::draw(0, (uint64_t)hi - (uint64_t)lo)); } template <class G> I operator()(G& g, const param_type& p) { return param_type(p)(g); }
    I a() const { return lo; } I b() const { return hi; } I min() const { return lo; } I max() const { return hi; } void reset() {}
};
template <class R = double> struct vr_uniform_real_distribution {
    typedef R result_type; R lo, hi; vr_uniform_real_distribution(R a = 0, R b = 1) : lo(a), hi(b) {}
    template <class G> R operator()(G&) { return lo + (hi - lo) * ((vrand::draw(0, ~0ull) >> 11) * 0x1.0p-53); } void reset() {}
};
struct vr_bernoulli_distribution {
    typedef bool result_type; double pr; explicit vr_bernoulli_distribution(double p = 0.5) : pr(p) {} template <class G> bool operator()(G&) { return pr <= 0 ? false : pr >= 1 ? true : vrand::draw(0, 1) == 1; } double p() const { return pr; } bool min() const { return false; } bool max() const { return true; } void reset() {}
};
inline int vr_rand() { return (int)vrand::draw(0, RAND_MAX); }
inline void vr_srand(unsigned) {}
}
inline int vr_rand() { return std::vr_rand(); }
inline void vr_srand(unsigned) {}
#define random_device vr_random_device
#define mt19937 vr_mt19937
#define mt19937_64 vr_mt19937_64
#define minstd_rand vr_mt19937
#define default_random_engine vr_mt19937
#define uniform_int_distribution vr_uniform_int_distribution
#define uniform_real_distribution vr_uniform_real_distribution
#define bernoulli_distribution vr_bernoulli_distribution
#define rand vr_rand
#define srand vr_srand
