// Random generation, graphs, elimination orders.
#include "ops_impl.hh"
#include <clpoly/random.hh>
using namespace ops;
static std::vector<variable> vl(int n) { return std::vector<variable>(vars().begin(), vars().begin() + n); }
#define N(i) ((int)sim::toint(a.at(i)))
OP(random_poly, 3, true, { return (SV{std::to_string(1 + r.below(4)), std::to_string(r.below(5)), std::to_string(r.below(12)), std::to_string(1 + r.below(1000))}); } MAKE { int d = N(1), l = N(2), c = N(3); return fn(vl(N(0)), [d, l, c](const std::vector<variable>& v) { return random_polynomial<ZZ>(v, d, l, {-c, c}, true); }); })
OP(random_poly_qq, 2, true, { return (SV{std::to_string(1 + r.below(4)), std::to_string(r.below(5)), std::to_string(r.below(12)), std::to_string(1 + r.below(1000))}); } MAKE { int d = N(1), l = N(2), c = N(3); return fn(vl(N(0)), [d, l, c](const std::vector<variable>& v) { return random_polynomial_QQ(v, d, l, {-c, c}); }); })
OP(random_upoly, 2, true, { return (SV{std::to_string(r.below(9)), std::to_string(r.below(7))}); } MAKE { return fn(two(N(0), N(1)), [](const std::pair<int, int>& p) { return random_upolynomial<ZZ>(p.first, p.second, {-50, 50}); }); })
OP(random_sel, 2, true, { return (SV{std::to_string(1 + r.below(40)), std::to_string(r.below(20))}); } MAKE { return fn(two(N(0), N(1)), [](const std::pair<int, int>& p) { std::vector<int> l; for (int i = 0; i < p.first; ++i) l.push_back(i); return two(random_select(p.first, p.second), RandomSample(l, p.second)); }); })
OP(random_graph, 2, true, { return (SV{std::to_string(1 + r.below(6)), std::to_string(r.below(101))}); } MAKE { double q = N(1) / 100.0; return fn(vl(N(0)), [q](const std::vector<variable>& v) { return random_graph<variable>(v, q); }); })
static std::string edges(Rng& r) { std::string s; int n = (int)r.below(12); for (int i = 0; i < n; ++i) { s += (char)('0' + r.below(6)); s += (char)('0' + r.below(6)); } return s; }
static graph<variable> mkg(const std::string& s, int n) { graph<variable> g; for (int i = 0; i < n; ++i) g.add_node(vars()[i]); for (size_t i = 0; i + 1 < s.size(); i += 2) if (s[i] != s[i + 1]) g.add_edge(vars()[(s[i] - '0') % 6], vars()[(s[i + 1] - '0') % 6]); return g; }
OP(chordal, 4, true, { return (SV{edges(r), std::to_string(1 + r.below(6))}); } MAKE { return fn(mkg(a.at(0), N(1)), [](const graph<variable>& g) { graph<variable> o; auto l = chordal_completion(o, g); return two(two(o, l), perfect_elimination_ordering(o)); }); })
OP(elim, 3, false, { return (SV{edges(r), std::to_string(1 + r.below(6))}); } MAKE { return fn(mkg(a.at(0), N(1)), [](const graph<variable>& g) { auto l = g.nodes(); return two(two(elimination_game(g, l), (unsigned long)elimination_height(g, l)), two(connected_branch(g), graph_diff_score(g, connected_branch_graph(g)))); }); })
OP(assoc_graph, 3, false, { SV s; int n = 1 + (int)r.below(4); for (int i = 0; i < n; ++i) s.push_back(T(gens::rp(r, 4, 2, 2, 9))); return s; } MAKE { std::vector<polynomial_ZZ> v; for (auto& s : a) v.push_back(poly<polynomial_ZZ>(s)); return fn(v, [](const std::vector<polynomial_ZZ>& v) { return two(associatedgraph(v), peo(v)); }); })
OP(var_lookup, 2, false, { (void)r; return (SV{}); } MAKE { (void)a; return fn(std::string("x"), [](const std::string& s) { variable v(s), w = variable::get_variable("y"); std::vector<variable> o; o.push_back(v); o.push_back(w); return o; }); })
