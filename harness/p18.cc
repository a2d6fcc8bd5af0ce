// P18: ranking and selection operators respect fitness.
#include "common.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/algorithms/evolutionary-algorithms/crossover.hh"
#include "hnco/algorithms/evolutionary-algorithms/random-selection.hh"
#include "hnco/algorithms/evolutionary-algorithms/selection.hh"
using namespace hnco::algorithm;
typedef std::pair<double, BV> Ind;
static double gen_value(Gen& g, int mode) { switch (mode) { case 0: return g.irange(-2, 2); case 1: return g.irange(0, 1000); case 2: return g.real(-1e3, 1e3); case 3: return 7; default: return g.pick(std::vector<double>{-INFINITY, -1e300, -1, -0.0, 0, 5e-324, 1, 1e300}); } }
static void fill(Gen& g, Population& p, int mode) { for (int i = 0; i < p.get_size(); i++) { p.bvs[i] = g.bits(p.get_bv_size()); p.values[i] = gen_value(g, mode); } }
static std::vector<Ind> inds(const Population& p) { std::vector<Ind> v; for (int i = 0; i < p.get_size(); i++) v.push_back({p.values[i], p.bvs[i]}); return v; }
static void is_perm(const Population& p) { std::vector<bool> s(p.get_size()); REQUIRE(p.permutation.size() == p.bvs.size(), "permutation", p.permutation.size()); for (int i : p.permutation) { REQUIRE(i >= 0 && i < p.get_size() && !s[i], "permutation", "not a permutation: " << pbt::showv(p.permutation)); s[i] = true; } }
PBT(sort, 3000, 40000) {
  int N = g.chance(1, 20) ? g.irange(41, 400) : g.small(1, 40), n = g.small(1, 10), mode = g.below(5); Population p(N, n); fill(g, p, mode); seed(g); int reps = g.irange(1, 3); auto before = inds(p); g.note() << "sort " << N << " values " << pbt::showv(p.values); g.nontrivial(N > 2);
  for (int t = 0; t < reps; t++) { if (g.chance(1, 3) && t) { int i = g.below(N); p.values[i] = gen_value(g, mode); before = inds(p); } p.sort(); REQUIRE(inds(p) == before, "content", "individuals moved"); is_perm(p); std::vector<double> want = p.values; std::sort(want.rbegin(), want.rend());
    for (int i = 0; i < N; i++) { REQUIRE(p.get_best_value(i) == want[i], "order", "rank " << i << " has value " << p.get_best_value(i) << " instead of " << want[i]); int k = p.get_best_index(i); REQUIRE(p.values[k] == want[i] && p.get_best_bv(i) == p.bvs[k] && p.get_worst_bv(N - 1 - i) == p.bvs[k], "accessors", "rank " << i); }
    REQUIRE(p.get_best_value() == want[0] && p.get_best_bv() == p.bvs[p.get_best_index()] && p.get_best_index() == p.permutation[0], "best", "");
    for (int i = 0; i < N; i++) { int a = 0, b = N; while (!(want[a] == want[i])) a++; b = a; while (b < N && want[b] == want[i]) b++; auto r = p.get_equivalent_bvs(i); REQUIRE(r.first == a && r.second == b, "equivalent", "class of rank " << i << " is [" << r.first << "," << r.second << ") instead of [" << a << "," << b << ")"); } }
}
PBT(partial_sort, 3000, 40000) {
  int N = g.chance(1, 20) ? g.irange(41, 400) : g.small(1, 40), n = g.small(1, 6), k = g.irange(1, N), mode = g.below(5); Population p(N, n); fill(g, p, mode); seed(g); auto before = inds(p); g.note() << "partial sort " << k << " of " << pbt::showv(p.values); g.nontrivial(N > 2); if (g.flag()) p.sort();
  p.partial_sort(k); REQUIRE(inds(p) == before, "content", ""); is_perm(p); std::vector<double> want = p.values; std::sort(want.rbegin(), want.rend()); for (int i = 0; i < k; i++) REQUIRE(p.get_best_value(i) == want[i], "order", "rank " << i << " of " << k << " has value " << p.get_best_value(i) << " instead of " << want[i]);
}
static void top(const std::vector<Ind>& pool, const Population& par, const char *what) {
  std::vector<Ind> rest = pool, got = inds(par); std::vector<double> want; for (auto& x : pool) want.push_back(x.first); std::sort(want.rbegin(), want.rend());
  std::vector<double> vals; for (auto& x : got) { auto it = std::find(rest.begin(), rest.end(), x); REQUIRE(it != rest.end(), "stranger", what << " selection keeps " << pbt::show(x.second) << " with value " << x.first << " which is not in the pool (that often)"); rest.erase(it); vals.push_back(x.first); }
  std::sort(vals.rbegin(), vals.rend()); for (size_t i = 0; i < vals.size(); i++) REQUIRE(vals[i] == want[i], "best-kept", what << " selection keeps value " << vals[i] << " at rank " << i << " instead of " << want[i]);
  for (int i = 0; i < par.get_size(); i++) REQUIRE(par.get_best_value(i) == want[i], "ranked", what << " selection: parents are not ranked, rank " << i);
}
PBT(plus_selection, 2500, 30000) {
  int mu = g.chance(1, 20) ? g.irange(16, 150) : g.small(1, 15), lambda = g.chance(1, 20) ? g.irange(21, 300) : g.small(1, 20), n = g.small(1, 10), mode = g.below(5), rounds = g.irange(1, 4); Population a(mu, n), b(lambda, n); seed(g); PlusSelection s(a, b); fill(g, a, mode); if (g.flag()) a.sort(); g.note() << mu << "+" << lambda << " rounds " << rounds; g.nontrivial(mu + lambda > 3);
  for (int t = 0; t < rounds; t++) { fill(g, b, mode); auto pool = inds(a); for (auto& x : inds(b)) pool.push_back(x); s.select(); is_perm(a); for (auto& x : b.bvs) REQUIRE(int(x.size()) == n, "offspring-shape", x.size()); top(pool, a, "plus"); }
}
PBT(comma_selection, 2500, 30000) {
  int mu = g.chance(1, 20) ? g.irange(16, 150) : g.small(1, 15), lambda = mu + (g.chance(1, 20) ? g.irange(16, 200) : g.small(0, 15)), n = g.small(1, 10), mode = g.below(5), rounds = g.irange(1, 4); Population a(mu, n), b(lambda, n); seed(g); fill(g, a, mode); CommaSelection s(a, b); g.note() << mu << "," << lambda << " rounds " << rounds; g.nontrivial(lambda > 2);
  for (int t = 0; t < rounds; t++) { fill(g, b, mode); auto pool = inds(b); s.select(); is_perm(a); for (auto& x : b.bvs) REQUIRE(int(x.size()) == n, "offspring-shape", x.size()); top(pool, a, "comma"); }
}
static bool near(double obs, double N, double p) { return std::fabs(obs - N * p) <= 7 * std::sqrt(std::max(0.0, N * p * (1 - p))) + 8; }
PBT(random_ties, 150, 1500) { // equal values come in random order
  int N = g.chance(1, 4) ? g.irange(30, 150) : g.irange(2, 12), k = g.irange(1, N), reps = 3000; bool part = g.flag(); Population p(N, 4); for (auto& v : p.values) v = 3; seed(g); std::vector<int> c(N); g.nontrivial(true); g.note() << N << " equal values"; for (int t = 0; t < reps; t++) { if (part) p.partial_sort(k); else p.sort(); c[p.get_best_index(0)]++; } for (int i = 0; i < N; i++) REQUIRE(near(c[i], reps, 1.0 / N), "ties", "individual " << i << " of " << N << " is first " << c[i] << " times out of " << reps);
}
static double C(int n, int k) { if (k < 0 || k > n) return 0; double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
// Individuals are told apart by their bit vectors (their index in binary).
static void identify(Population& p) { for (int i = 0; i < p.get_size(); i++) p.bvs[i] = from_int(i, p.get_bv_size()); }
static int who(const BV& x) { int v = 0; for (size_t i = 0; i < x.size(); i++) v |= x[i] << i; return v; }
PBT(tournament, 2500, 30000) {
  int N = g.small(3, 30), ts = g.irange(2, N - 1); Population p(N, 5); identify(p); std::vector<int> perm = gen_perm(g, N); bool ties = g.chance(1, 4); for (int i = 0; i < N; i++) p.values[i] = ties ? perm[i] / 2 : perm[i]; seed(g); TournamentSelection s(p); s.set_tournament_size(ts); s.init(); int per = N / ts; g.note() << "tournament " << ts << " of " << N << (ties ? " with ties" : ""); g.nontrivial(N > 3);
  std::vector<double> sorted = p.values; std::sort(sorted.begin(), sorted.end());
  for (int round = 0; round < 4; round++) { std::set<int> winners; for (int t = 0; t < per; t++) { int w = who(s.select()); REQUIRE(w >= 0 && w < N, "member", w); REQUIRE(p.values[w] >= sorted[ts - 1], "winner", "winner of a tournament of " << ts << " among " << N << " has value " << p.values[w] << ", fewer than " << ts - 1 << " individuals are not better"); REQUIRE(winners.insert(w).second, "without-replacement", "individual " << w << " wins twice in a round of " << per << " tournaments"); } if (g.chance(1, 5)) { identify(p); std::vector<int> q = gen_perm(g, N); for (int i = 0; i < N; i++) p.values[i] = ties ? q[i] / 2 : q[i]; s.init(); } else if (g.chance(1, 5)) s.init(); }
}
PBT(tournament_distribution, 200, 2000) {
  int N = g.irange(3, 12), ts = g.irange(2, N - 1), reps = g.thorough ? 12000 : 4000; Population p(N, 4); identify(p); std::vector<int> perm = gen_perm(g, N); for (int i = 0; i < N; i++) p.values[i] = perm[i]; seed(g); TournamentSelection s(p); s.set_tournament_size(ts); s.init(); std::vector<int> c(N); g.note() << "tournament " << ts << " of " << N; g.nontrivial(true); for (int t = 0; t < reps; t++) c[int(p.values[who(s.select())])]++;
  for (int v = 0; v < N; v++) { double q = C(v, ts - 1) / C(N, ts); REQUIRE(std::fabs(c[v] - reps * q) <= 8 * std::sqrt(reps * q) + 8, "tournament-distribution", "the individual better than " << v << " others among " << N << " wins " << c[v] << " tournaments of " << ts << " out of " << reps << ", expected " << reps * q); }
}
PBT(probabilities, 300, 3000) {
  int N = g.irange(1, 12), kind = g.below(3), reps = g.thorough ? 12000 : 4000; Population p(N, 4); identify(p); seed(g); std::vector<double> w(N, 1.0); std::shared_ptr<RandomSelection> s; double beta = g.pick(std::vector<double>{0, 0.5, 1, 2, -1, 1e-3}); double off = g.pick(std::vector<double>{0, -1000, 1000, 5e5});
  if (kind == 0) { for (auto& v : p.values) v = g.real(-5, 5); s = std::make_shared<UniformSelection>(p); }
  else if (kind == 1) { for (int i = 0; i < N; i++) { p.values[i] = g.chance(1, 4) ? 0 : g.real(0.01, 10); w[i] = p.values[i]; } if (*std::max_element(w.begin(), w.end()) == 0) p.values[0] = w[0] = 1; s = std::make_shared<FitnessProportionateSelection>(p); }
  else { if (beta < 0) beta = 1; for (int i = 0; i < N; i++) { p.values[i] = off + g.real(-3, 3); } double m = *std::max_element(p.values.begin(), p.values.end()); for (int i = 0; i < N; i++) w[i] = std::exp(beta * (p.values[i] - m)); auto b = std::make_shared<BoltzmannSelection>(p); b->set_beta(beta); s = b; }
  g.note() << (kind == 0 ? "uniform" : kind == 1 ? "proportionate" : "boltzmann") << " beta " << beta << " values " << pbt::showv(p.values); g.label(kind == 0 ? "uniform" : kind == 1 ? "proportionate" : "boltzmann"); g.nontrivial(N > 1); double z = std::accumulate(w.begin(), w.end(), 0.0);
  int epochs = g.irange(1, 2); for (int e = 0; e < epochs; e++) { if (e == 1) { std::reverse(p.values.begin(), p.values.end()); std::reverse(w.begin(), w.end()); } s->init(); std::vector<int> c(N); for (int t = 0; t < reps; t++) { int k = who(s->select()); REQUIRE(k >= 0 && k < N, "member", k); c[k]++; } for (int i = 0; i < N; i++) { REQUIRE(near(c[i], reps, w[i] / z), "probability", "individual " << i << " selected " << c[i] << " times out of " << reps << ", expected " << reps * w[i] / z); if (w[i] == 0) REQUIRE(c[i] == 0, "probability", "individual of fitness 0 selected"); } }
}
PBT(crossover, 2500, 30000) {
  int n = g.chance(1, 20) ? g.irange(61, 400) : g.small(1, 60); BV a = g.bits(n), b = g.bits(n), c(n, g.flag()); bool biased = g.flag(); seed(g); BV a0 = a, b0 = b; UniformCrossover u; BiasedCrossover v; if (g.flag()) v.set_bias(g.real(0.01, 0.99)); g.note() << (biased ? "biased " : "uniform ") << n; g.nontrivial(n > 1 && a != b); if (biased) v.recombine(a, b, c); else u.recombine(a, b, c); REQUIRE(a == a0 && b == b0, "parents", "modified"); REQUIRE(int(c.size()) == n, "size", c.size()); for (int i = 0; i < n; i++) REQUIRE(c[i] == a[i] || c[i] == b[i], "inherited", "bit " << i << " comes from no parent");
}
PBT(crossover_distribution, 150, 1500) {
  int n = g.irange(2, 20), reps = 3000; bool biased = g.flag(); double q = 0.5; seed(g); UniformCrossover u; BiasedCrossover v; if (biased && !g.chance(1, 4)) { q = g.real(0.05, 0.95); v.set_bias(q); } BV a = g.bits(n), b = a; for (auto& x : b) x ^= 1; std::vector<int> c(n); int both = 0; g.note() << (biased ? "biased " : "uniform ") << q; g.nontrivial(true); for (int t = 0; t < reps; t++) { BV o(n); if (biased) v.recombine(a, b, o); else u.recombine(a, b, o); for (int i = 0; i < n; i++) c[i] += o[i] == b[i]; both += o[0] == b[0] && o[n - 1] == b[n - 1]; } for (int i = 0; i < n; i++) REQUIRE(near(c[i], reps, q), "bias", "bit " << i << " comes from the second parent " << c[i] << " times out of " << reps << ", bias " << q); REQUIRE(near(both, reps, q * q), "independence", both << " of " << reps);
}
