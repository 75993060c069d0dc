// C22: associated graphs, components, elimination game/height, chordal completion and elimination orders, for every graph and every
// outcome of the random tie breaks (std::rand is replaced by a choice sequence that is enumerated exhaustively).
#include "poly.hh"
#include <clpoly/associatedgraph.hh>
using namespace rp; using namespace std;
static vector<char>* script = nullptr; static size_t draws = 0;
extern "C" int rand(void) { size_t k = draws++; if (draws > 100000) vh::fail("endless random tie breaking"); return script && k < script->size() && (*script)[k] ? RAND_MAX : 0; }
extern "C" void srand(unsigned) {}
// all outcomes of the boolean draws of f, at most D of them different from the first choice
template <class F> static void choices(const F& f, int D) { vector<char> s; function<void(int)> rec = [&](int d) { script = &s; draws = 0; f(); size_t n = draws; size_t b = s.size(); if (d == D) return; for (size_t k = b; k < n; ++k) { s.resize(k, 0); s.push_back(1); rec(d + 1); s.resize(b); } }; rec(0); script = nullptr; }
// ---- reference graphs: adjacency masks ----
struct GR { int n; uint32_t a[8]; GR(int n_ = 0) : n(n_) { for (auto& x : a) x = 0; } void e(int i, int j) { a[i] |= 1u << j; a[j] |= 1u << i; } bool has(int i, int j) const { return a[i] >> j & 1; } bool operator==(const GR& o) const { if (n != o.n) return false; for (int i = 0; i < n; ++i) if (a[i] != o.a[i]) return false; return true; } string str() const { string s = to_string(n) + " nodes:"; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (has(i, j)) s += " " + to_string(i) + "-" + to_string(j); return s; } };
static GR graphno(int n, uint64_t m) { GR g(n); int k = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++k) if (m >> k & 1) g.e(i, j); return g; }
static uint64_t ngraphs(int n) { return uint64_t(1) << (n * (n - 1) / 2); }
static bool clique(const GR& g, uint32_t m) { for (int i = 0; i < g.n; ++i) if ((m >> i & 1) && (m & ~g.a[i] & ~(1u << i))) return false; return true; }
static bool chordal(const GR& g) { uint32_t left = (1u << g.n) - 1; while (left) { bool f = false; for (int i = 0; i < g.n && !f; ++i) if ((left >> i & 1) && clique(g, g.a[i] & left)) { left &= ~(1u << i); f = true; } if (!f) return false; } return true; }
static GR fill(GR g, const vector<int>& l) { uint32_t left = (1u << g.n) - 1; for (int v : l) { left &= ~(1u << v); uint32_t N = g.a[v] & left; for (int i = 0; i < g.n; ++i) if (N >> i & 1) g.a[i] |= N & ~(1u << i); } return g; }
static int height(const GR& g, const vector<int>& l) { GR f = fill(g, l); vector<int> pos(g.n), h(g.n, 0); for (int i = 0; i < g.n; ++i) pos[l[i]] = i; int best = 0; for (int v : l) { int par = -1; for (int u = 0; u < g.n; ++u) if (f.has(v, u) && pos[u] > pos[v] && (par < 0 || pos[u] < pos[par])) par = u; best = max(best, h[v]); if (par >= 0) h[par] = max(h[par], h[v] + 1); } return best; }
static set<set<int>> comps(const GR& g) { set<set<int>> r; uint32_t seen = 0; for (int i = 0; i < g.n; ++i) if (!(seen >> i & 1)) { uint32_t c = 1u << i, o = 0; while (c != o) { o = c; for (int j = 0; j < g.n; ++j) if (c >> j & 1) c |= g.a[j]; } seen |= c; set<int> s; for (int j = 0; j < g.n; ++j) if (c >> j & 1) s.insert(j); r.insert(s); } return r; }
static int ecc(const GR& g, int v) { uint32_t c = 1u << v; int d = 0; for (;;) { uint32_t o = c; for (int j = 0; j < g.n; ++j) if (o >> j & 1) c |= g.a[j]; if (c == o) return d; ++d; } }
// ---- library graphs ----
static string nm(int i) { return string("node_with_a_long_name_") + char('a' + (i * 5) % 8); }
template <class N> struct Nodes; template <> struct Nodes<variable> { static variable at(int i) { return X[i]; } }; template <> struct Nodes<string> { static string at(int i) { return nm(i); } };
template <class N> static graph<N> lib(const GR& g, int how) { graph<N> G; if (how == 0) for (int i = 0; i < g.n; ++i) G.add_node(Nodes<N>::at(i)); else if (how == 1) for (int i = g.n; i-- > 0;) G.add_node(Nodes<N>::at(i)); for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (g.has(i, j)) { if (how == 0) G.add_edge_index(i, j); else if (how == 1) G.add_edge(Nodes<N>::at(j), Nodes<N>::at(i)); else G.add_edge(Nodes<N>::at(i), Nodes<N>::at(j)); } if (how == 2) for (int i = 0; i < g.n; ++i) G.add_node(Nodes<N>::at(i)); return G; }
template <class N> static GR back(const graph<N>& G, int n, const string& w) { GR g(n); CHECK((int)G.size() == n && (int)G.nodes().size() == n && (int)G.mnode().size() == n && (int)G.adjacency_list().size() == n, w << ": graph does not have " << n << " nodes"); vector<int> id(n, -1); for (int i = 0; i < n; ++i) { auto it = G.mnode().find(Nodes<N>::at(i)); CHECK(it != G.mnode().end(), w << ": node " << i << " is missing"); int k = G.index(Nodes<N>::at(i)); CHECK(k >= 0 && k < n && id[k] < 0 && (int)it->second == k && G.node(k) == Nodes<N>::at(i) && G.nodes()[k] == Nodes<N>::at(i), w << ": index of node " << i); id[k] = i; } for (int k = 0; k < n; ++k) { CHECK(G.neighborhood_index(G.node(k)) == G.adjacency_list()[k], w << ": neighborhood_index"); for (auto j : G.adjacency_list()[k]) { CHECK(j < (uint64_t)n, w << ": neighbour out of range"); g.a[id[k]] |= 1u << id[j]; } } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(G.is_edge(Nodes<N>::at(i), Nodes<N>::at(j)) == g.has(i, j) && G.is_edge(G.index(Nodes<N>::at(i)), G.index(Nodes<N>::at(j))) == g.has(i, j), w << ": is_edge(" << i << ", " << j << ")"); vh::step(); return g; }
template <class N> static vector<int> order(const vector<N>& l, int n, const string& w) { CHECK((int)l.size() == n, w << ": order of " << l.size() << " nodes"); vector<int> r; for (auto& x : l) { int k = -1; for (int i = 0; i < n; ++i) if (x == Nodes<N>::at(i)) k = i; CHECK(k >= 0 && find(r.begin(), r.end(), k) == r.end(), w << ": order is not a permutation of the nodes"); r.push_back(k); } return r; }
static string ls(const vector<int>& l) { string s; for (int i : l) s += to_string(i) + " "; return s; }
static void completion(const GR& g, const GR& c, const vector<int>* l, const string& w) { for (int i = 0; i < g.n; ++i) { CHECK((g.a[i] & ~c.a[i]) == 0, w << ": completion lost an edge: " << c.str()); CHECK(!(c.a[i] >> i & 1), w << ": completion has a loop"); for (int j = 0; j < g.n; ++j) CHECK(c.has(i, j) == c.has(j, i), w << ": completion is not symmetric"); } CHECK(chordal(c), w << ": completion " << c.str() << " is not chordal"); if (l) CHECK(fill(c, *l) == c, w << ": order " << ls(*l) << " is not perfect for the completion " << c.str());
    for (int i = 0; i < g.n; ++i) for (int j = i + 1; j < g.n; ++j) if (c.has(i, j) && !g.has(i, j)) { GR d = c; d.a[i] &= ~(1u << j); d.a[j] &= ~(1u << i); CHECK(!chordal(d), w << ": completion " << c.str() << " is not minimal (edge " << i << "-" << j << " is not needed)"); } }
template <class N> static void ties(const GR& g, int how, int D) {
    string w = g.str(); auto G = lib<N>(g, how); bool ch = chordal(g); set<string> res;
    choices([&] { auto l = order<N>(perfect_elimination_ordering(G), g.n, w); vh::step(); if (ch) CHECK(fill(g, l) == g, w << ": order " << ls(l) << " has fill-in although the graph is chordal"); res.insert(ls(l)); }, D);
    choices([&] { graph<N> C; auto lv = chordal_completion(C, G); auto l = order<N>(lv, g.n, w); GR c = back(C, g.n, w + " completion"); vh::step(); completion(g, c, &l, w); if (ch) CHECK(c == g, w << ": completion of a chordal graph added edges"); CHECK(fill(g, l) == c, w << ": order " << ls(l) << " gives the fill-in " << fill(g, l).str() << ", completion is " << c.str()); CHECK(C.nodes() == G.nodes(), w << ": completion renumbers the nodes"); res.insert(ls(l)); }, D);
    choices([&] { GR c = back(chordal_completion(G), g.n, w + " completion"); vh::step(); completion(g, c, nullptr, w); }, min(D, 1));
    CHECK(back(G, g.n, w) == g, w << ": input graph changed"); for (auto& s : res) vh::outcome(w + s);
}
template <class N> static void components(const GR& g, int how) { string w = g.str(); auto G = lib<N>(g, how); GR r = back(G, g.n, w); CHECK(r == g, w << ": graph built is " << r.str()); auto want = comps(g); auto L = connected_branch(G); vh::step(); set<set<int>> got; for (auto& b : L) { set<int> s; for (auto& x : b) for (int i = 0; i < g.n; ++i) if (x == Nodes<N>::at(i)) { CHECK(!s.count(i), w << ": node listed twice in a component"); s.insert(i); } CHECK(s.size() == b.size(), w << ": unknown node in a component"); got.insert(s); } CHECK(got == want && L.size() == want.size(), w << ": components"); auto B = connected_branch_graph(G); vh::step(); GR b = back(B, g.n, w), wb(g.n); for (auto& s : want) for (int i : s) for (int j : s) if (i != j) wb.e(i, j); CHECK(b == wb, w << ": connected_branch_graph gives " << b.str()); for (int i = 0; i < g.n; ++i) { CHECK((int)DFV(G, Nodes<N>::at(i)) == ecc(g, i), w << ": DFV of node " << i); CHECK((int)DFV(G, (size_t)G.index(Nodes<N>::at(i))) == ecc(g, i), w << ": DFV of index"); } CHECK(back(G, g.n, w) == g, w << ": input graph changed"); ostringstream o; o << G; string t = o.str(); vector<string> lines; { istringstream in(t); string x; while (getline(in, x)) lines.push_back(x); } CHECK((int)lines.size() == g.n + 2 && lines[0] == "{" && lines.back() == "}", w << ": printed as " << t); set<string> seen; for (int k = 1; k <= g.n; ++k) { istringstream in(lines[k]); string h, x; in >> h; set<string> nb; while (in >> x) nb.insert(x); int me = -1; for (int i = 0; i < g.n; ++i) { ostringstream q; q << Nodes<N>::at(i) << ":"; if (q.str() == h) me = i; } CHECK(me >= 0 && seen.insert(h).second, w << ": printed line " << lines[k]); set<string> wn; for (int j = 0; j < g.n; ++j) if (g.has(me, j)) { ostringstream q; q << Nodes<N>::at(j); wn.insert(q.str()); } CHECK(nb == wn, w << ": printed line " << lines[k]); } vh::outcome(t); }
template <class N> static void orders(const GR& g, int how) { auto G = lib<N>(g, how); vector<int> l; for (int i = 0; i < g.n; ++i) l.push_back(i); do { string w = g.str() + " order " + ls(l); vector<N> L; for (int i : l) L.push_back(Nodes<N>::at(i)); GR e = back(elimination_game(G, L), g.n, w); CHECK(e == fill(g, l), w << ": elimination_game gives " << e.str() << ", not " << fill(g, l).str()); int h = elimination_height(G, L); CHECK(h == height(g, l), w << ": elimination height " << h << ", not " << height(g, l)); vh::step(2); vh::outcome(e.str() + to_string(h)); } while (next_permutation(l.begin(), l.end())); }
// graphs on a subset of the labels 0..n-1
template <class N> static void diff(int n, uint32_t s1, uint64_t m1, uint32_t s2, uint64_t m2) {
    auto build = [&](uint32_t s, uint64_t m, GR& r) { graph<N> G; vector<int> v; for (int i = 0; i < n; ++i) if (s >> i & 1) { v.push_back(i); G.add_node(Nodes<N>::at(i)); } int k = 0; r = GR(n); for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j, ++k) if (m >> k & 1) { G.add_edge(Nodes<N>::at(v[j]), Nodes<N>::at(v[i])); r.e(v[i], v[j]); } return G; };
    GR a, b; auto A = build(s1, m1, a), B = build(s2, m2, b); int cr = 0, un = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { cr += a.has(i, j) && b.has(i, j); un += a.has(i, j) || b.has(i, j); } double want = un ? 1 - double(cr) / un : 0, d = graph_diff_score(A, B), d2 = graph_diff_score(B, A); vh::step(2); CHECK(abs(d - want) < 1e-12, "graph_diff_score(" << a.str() << " | " << b.str() << ") = " << d << ", common edges " << cr / 2 << " of " << un / 2); CHECK(d == d2, "graph_diff_score is not symmetric: " << a.str() << " | " << b.str()); vh::outcome(to_string(cr) + "/" + to_string(un)); }
// operation histories on a graph
template <class N> static void history(int nodes, int len, uint64_t code) {
    GR r(8); uint32_t present = 0; vector<int> idx; graph<N> G; string w; uint64_t per = nodes + 2 * nodes * nodes + nodes * nodes;
    for (int k = 0; k < len; ++k) { uint64_t o = code % per; code /= per; auto ins = [&](int i) { if (!(present >> i & 1)) { present |= 1u << i; idx.push_back(i); } };
        if (o < (uint64_t)nodes) { w += " node" + to_string(o); ins(o); G.add_node(Nodes<N>::at(o)); }
        else if ((o -= nodes) < uint64_t(2 * nodes * nodes)) { bool dir = o % 2; o /= 2; int i = o / nodes, j = o % nodes; w += (dir ? " arc" : " edge") + to_string(i) + "," + to_string(j); ins(i); ins(j); r.a[i] |= 1u << j; if (!dir) r.a[j] |= 1u << i; G.add_edge(Nodes<N>::at(i), Nodes<N>::at(j), dir); }
        else { o -= 2 * nodes * nodes; size_t i = o / nodes, j = o % nodes; if (i >= idx.size() || j >= idx.size()) return; /* outside: no such index */ bool dir = (i + j) % 2; w += " index" + to_string(i) + "," + to_string(j); r.a[idx[i]] |= 1u << idx[j]; if (!dir) r.a[idx[j]] |= 1u << idx[i]; if (i < j) G.add_edge_index(i, j, dir); else G.add_edge((uint64_t)i, (uint64_t)j, dir); }
        CHECK(G.size() == idx.size() && G.mnode().size() == idx.size() && G.adjacency_list().size() == idx.size(), w << ": size"); for (size_t k2 = 0; k2 < idx.size(); ++k2) CHECK(G.node(k2) == Nodes<N>::at(idx[k2]) && G.index(Nodes<N>::at(idx[k2])) == k2, w << ": node " << k2);
        for (int i = 0; i < nodes; ++i) { CHECK((G.mnode().count(Nodes<N>::at(i)) != 0) == bool(present >> i & 1), w << ": presence of " << i); for (int j = 0; j < nodes; ++j) CHECK(G.is_edge(Nodes<N>::at(i), Nodes<N>::at(j)) == bool(r.a[i] >> j & 1), w << ": edge " << i << "," << j); } for (size_t i = 0; i < idx.size(); ++i) for (size_t j = 0; j < idx.size(); ++j) CHECK(G.is_edge((uint64_t)i, (uint64_t)j) == bool(r.a[idx[i]] >> idx[j] & 1), w << ": edge by index"); vh::step(); }
    vh::state(vh::hstr(w)); }
static string show(const vector<RP>& L) { string s = "("; for (auto& a : L) s += a.str() + "; "; return s + ")"; }
static GR vgraph(const vector<RP>& L, int n, uint32_t& used) { GR g(n); used = 0; for (auto& p : L) { uint32_t v = 0; for (auto& t : p.t) for (int i = 0; i < n; ++i) if (t.first[i]) v |= 1u << i; used |= v; for (int i = 0; i < n; ++i) if (v >> i & 1) g.a[i] |= v & ~(1u << i); } return g; }
template <class Tc, class comp> static void polys(const vector<RP>& L, int n, const comp* c) { vector<polynomial_<Tc, comp>> P; for (auto& p : L) P.push_back(lib<Tc, comp>(p, c)); uint32_t used; GR g = vgraph(L, n, used); string w = show(L); auto G = associatedgraph(P); vh::step(); CHECK((int)G.size() == __builtin_popcount(used), w << ": graph of " << G.size() << " variables"); for (int i = 0; i < n; ++i) { CHECK((G.mnode().count(X[i]) != 0) == bool(used >> i & 1), w << ": variable " << i); for (int j = 0; j < n; ++j) CHECK(G.is_edge(X[i], X[j]) == g.has(i, j), w << ": edge " << i << "-" << j); }
    auto l = peo(P); vh::step(); vector<int> o; for (auto& v : l) { int k = -1; for (int i = 0; i < n; ++i) if (v == X[i]) k = i; CHECK(k >= 0 && (used >> k & 1) && find(o.begin(), o.end(), k) == o.end(), w << ": peo() is not a permutation of the variables"); o.push_back(k); } CHECK((int)o.size() == __builtin_popcount(used), w << ": peo() lists " << o.size() << " variables"); vector<int> full = o; for (int i = 0; i < n; ++i) if (!(used >> i & 1)) full.push_back(i); GR f = fill(g, full); completion(g, f, &full, w + " peo() " + ls(o)); if (chordal(g)) CHECK(f == g, w << ": peo() " << ls(o) << " has fill-in although the graph is chordal"); auto E = elimination_game(G, l); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) CHECK(E.is_edge(X[i], X[j]) == f.has(i, j), w << ": elimination_game edge " << i << "-" << j); CHECK(peo(P) == l, w << ": peo() is not deterministic"); vh::outcome(ls(o)); }
int main(int argc, char** argv) {
    return vh::main_(argc, argv, [] {
        make_vars(8); bool T = vh::thorough; static lex_<custom_var_order> lc(custom_var_order({rp::X[2], rp::X[0]}));
        auto sc = [](const string& name, int n, auto f) { vh::scope(name, ngraphs(n), [=](uint64_t i) { f(graphno(n, i)); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return graphno(n, i).str(); }); };
        for (int n = 0; n <= 4; ++n) sc("ties.all." + to_string(n), n, [](const GR& g) { for (int h = 0; h < 3; ++h) { ties<variable>(g, h, 100); ties<string>(g, h, 100); } });
        sc("ties.all.5", 5, [=](const GR& g) { ties<variable>(g, 0, 100); if (T) ties<string>(g, 1, 100); }); sc("ties.6", 6, [=](const GR& g) { ties<variable>(g, T ? 0 : 1, T ? 5 : 2); });
        vh::scope("ties.7", ngraphs(7) / 64, [=](uint64_t i) { for (int k = 0; k < 64; ++k) if (T || k % 16 == int(i % 16)) ties<variable>(graphno(7, i * 64 + k), 0, T ? 1 : 0); vh::state(vh::mix(i) ^ 7); }, [](uint64_t i) { return "64 graphs on 7 nodes from number " + to_string(i * 64); });
        for (int n = 0; n <= 6; ++n) sc("components." + to_string(n), n, [=](const GR& g) { for (int h = 0; h < 3; ++h) { components<variable>(g, h); if (n < 6) components<string>(g, h); } });
        for (int n = 0; n <= (T ? 6 : 5); ++n) sc("orders." + to_string(n), n, [=](const GR& g) { orders<variable>(g, 0); if (n < 6) { orders<variable>(g, 2); orders<string>(g, 1); } });
        vh::scope("diff.3", 64 * 64, [](uint64_t i) { uint32_t a = i / 64, b = i % 64; diff<variable>(3, a / 8, a % 8, b / 8, b % 8); diff<string>(3, a / 8, a % 8, b / 8, b % 8); vh::state(vh::mix(i) ^ 3); }); vh::scope("diff.4", 1024 * 1024 / 16, [=](uint64_t i) { for (int k = 0; k < 16; ++k) { uint64_t c = i * 16 + k; uint32_t a = c / 1024, b = c % 1024; diff<variable>(4, a / 64, a % 64, b / 64, b % 64); } vh::state(vh::mix(i) ^ 4); });
        { uint64_t p2 = 2 + 8 + 4, p3 = 3 + 18 + 9; vh::scope("history.2", vh::ipow(p2, T ? 5 : 4), [=](uint64_t i) { history<string>(2, T ? 5 : 4, i); history<variable>(2, T ? 5 : 4, i); }); vh::scope("history.3", vh::ipow(p3, T ? 4 : 3), [=](uint64_t i) { history<string>(3, T ? 4 : 3, i); history<variable>(3, T ? 4 : 3, i); }); }
        // polynomial systems: all lists of up to three polynomials over a catalogue with varied supports; and one polynomial per edge with degrees that break ties differently
        { int n = 4; vector<RP> A; auto ms = monos_deg(n, 2); for (uint32_t s = 0; s < 16; ++s) { RP sum = RP::c(1, n), pr = RP::c(2, n), mix = RP(); int k = 0; for (int i = 0; i < n; ++i) if (s >> i & 1) { sum = sum + RP::x(i, n) * RQ(++k); pr = pr * RP::x(i, n); mix = mix + rpow(RP::x(i, n), k + 1, n) * RQ(3) - RP::x((i + 1) % n, n); } A.push_back(sum); A.push_back(pr); A.push_back(mix); } A.push_back(RP()); A = uniq(A); auto pa = make_shared<vector<RP>>(A); uint64_t na = A.size(); auto get = [=](uint64_t i) { vector<RP> L{(*pa)[i % na]}; i /= na; if (i % (na + 1) < na) { L.push_back((*pa)[i % (na + 1)]); i /= na + 1; if (i % (na + 1) < na) L.push_back((*pa)[i % (na + 1)]); } return L; };
          vh::scope("polys.lists", na * (na + 1) * (na + 1), [=](uint64_t i) { auto L = get(i); polys<ZZ, grlex>(L, n, &grlex::init); if (T || i % 4 == 0) polys<QQ, lex_<custom_var_order>>(L, n, &lc); vh::state(vh::mix(i) ^ 44); }, [=](uint64_t i) { return show(get(i)); }); vh::scope("polys.empty", 1, [=](uint64_t) { polys<ZZ, grlex>({}, n, &grlex::init); polys<ZZ, lex>({RP(), RP::c(3, n)}, n, &lex::init); }); }
        for (int n = 2; n <= 6; ++n) for (int var = 0; var < 3; ++var) { string name = "peo.edges." + to_string(n) + "." + to_string(var); vh::scope(name, ngraphs(n), [=](uint64_t i) { GR g = graphno(n, i); vector<RP> L; for (int a = 0; a < n; ++a) { if (!g.a[a]) L.push_back(RP::x(a, n) + RP::c(1, n)); for (int b = a + 1; b < n; ++b) if (g.has(a, b)) L.push_back(var == 0 ? RP::x(a, n) * RP::x(b, n) : var == 1 ? rpow(RP::x(a, n), 1 + b % 3, n) * RP::x(b, n) + rpow(RP::x(b, n), 1 + (a * b) % 2, n) : rpow(RP::x(a, n), 2, n) + RP::x(b, n) + RP::x(a, n) * RP::x(b, n) * RQ(a + 1)); } if (var == 2) reverse(L.begin(), L.end()); polys<ZZ, grlex>(L, n, &grlex::init); vh::state(vh::mix(i) ^ vh::hstr(name)); }, [=](uint64_t i) { return graphno(n, i).str(); }); }
    });
}
