// P22: multi-objective search returns a true non-dominated set.
#include "common.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/multiobjective/algorithms/pareto-front-computation.hh"
#include "hnco/multiobjective/algorithms/population.hh"
#include "hnco/multiobjective/functions/function.hh"
#include "objectives.hh"
using namespace hnco::multiobjective; using algorithm::Nsga2; using algorithm::Population; using algorithm::Nsga2ParetoFrontComputation;
typedef std::vector<double> Val; typedef std::pair<BV, Val> Ind;
static bool dom(const Val& a, const Val& b) { bool lt = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) lt = true; } return lt; }
static std::vector<int> ranks(const std::vector<Val>& v) { std::vector<int> r(v.size(), -1); size_t left = v.size(); for (int f = 0; left; f++) { std::vector<size_t> now; for (size_t i = 0; i < v.size(); i++) { if (r[i] >= 0) continue; bool ok = true; for (size_t j = 0; j < v.size() && ok; j++) if (r[j] < 0 && dom(v[j], v[i])) ok = false; if (ok) now.push_back(i); } for (size_t i : now) r[i] = f; left -= now.size(); } return r; }
static double gen_val(Gen& g, int mode) { switch (mode) { case 0: return g.irange(0, 2); case 1: return g.irange(-50, 50); case 2: return g.real(-1, 1); case 3: return g.pick(std::vector<double>{-INFINITY, -1e308, -1, -0.0, 0.0, 5e-324, 1e-300, 1, 1e308, INFINITY}); case 4: return 1e16 + 2 * g.irange(0, 3); default: return g.irange(0, 1000) * 1e-12; } }
PBT(dominates, 20000, 200000) {
  int m = g.irange(1, 6), mode = g.below(6); Val a(m), b(m); for (auto& x : a) x = gen_val(g, mode); b = a; for (auto& x : b) if (g.flag()) x = gen_val(g, mode); g.note() << pbt::showv(a) << " " << pbt::showv(b); g.nontrivial(m > 1 && a != b);
  REQUIRE(function::dominates(a, b) == dom(a, b), "dominates", pbt::showv(a) << " dominates " << pbt::showv(b) << ": " << function::dominates(a, b)); REQUIRE(function::dominates(b, a) == dom(b, a), "dominates", "reverse"); REQUIRE(!function::dominates(a, a), "irreflexive", pbt::showv(a));
}
PBT(fronts, 4000, 60000) {
  int N = g.small(1, g.thorough ? 120 : 50), m = g.irange(1, 5), mode = g.below(6), rounds = g.irange(1, 3); Population p(N, 3, m); Nsga2ParetoFrontComputation c(p); g.note() << N << " values of " << m << " objectives, mode " << mode; g.nontrivial(N > 2 && m > 1);
  for (int t = 0; t < rounds; t++) { bool chain = g.chance(1, 6); for (int i = 0; i < N; i++) { if (i && g.chance(1, 8)) p.values[i] = p.values[g.below(i)]; else for (int k = 0; k < m; k++) p.values[i][k] = chain ? i : gen_val(g, mode); } if (chain) { auto q = gen_perm(g, N); auto v = p.values; for (int i = 0; i < N; i++) p.values[i] = v[q[i]]; }
    auto vals = p.values; std::vector<int> got(N, g.irange(-1, 5)), want = ranks(p.values); c.compute(got); REQUIRE(p.values == vals, "values", "modified"); for (int i = 0; i < N; i++) REQUIRE(got[i] == want[i], "front", "value " << i << " " << pbt::showv(p.values[i]) << " in front " << got[i] << " instead of " << want[i] << " among " << N); }
}
struct Rec: function::Function {
  int n, m; std::function<Val(const BV&)> f; std::vector<Ind> log; std::string bad;
  Rec(int n, int m, std::function<Val(const BV&)> f): n(n), m(m), f(f) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return m; }
  void evaluate(const BV& x, function::value_t& v) override { if (int(x.size()) != n || !valid(x)) { bad = "bit vector of size " + std::to_string(x.size()); v.assign(m, 0); return; } if (int(v.size()) != m) bad = "value of size " + std::to_string(v.size()); v = f(x); log.push_back({x, v}); }
};
struct Prob { std::function<Val(const BV&)> f; std::string name; };
static Prob gen_prob(Gen& g, int n, int m) {
  uint64_t salt = g.seed32(); int kind = g.below(6);
  switch (kind) {
  case 0: return {[=](const BV& x) { Val v(m); for (int k = 0; k < m; k++) v[k] = double(obj::hash(x, salt + k) % 5); return v; }, "hash5"};
  case 1: return {[=](const BV& x) { Val v(m); for (int k = 0; k < m; k++) v[k] = double(obj::hash(x, salt + 77 * k) >> 11) * 1e-9; return v; }, "hash"};
  case 2: { std::vector<std::vector<double>> w(m, std::vector<double>(n)); for (auto& r : w) for (auto& x : r) x = g.real(-1, 1); return {[=](const BV& x) { Val v(m); for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) v[k] += w[k][i] * x[i]; return v; }, "linear"}; }
  case 3: return {[=](const BV& x) { Val v(m, 0); double s = 0; for (auto b : x) s += b; for (int k = 0; k < m; k++) v[k] = k % 2 ? s : n - s; return v; }, "ones-zeros"};
  case 4: return {[=](const BV&) { return Val(m, 3.0); }, "constant"};
  default: return {[=](const BV& x) { Val v(m); double s = 0; for (int i = 0; i < n; i++) s += x[i] * std::ldexp(1.0, -(i % 40)); for (int k = 0; k < m; k++) v[k] = (s - k) * (s - k); return v; }, "schaffer"};
  }
}
struct Par { int n, m, mu, T, ts; double rate, cp; bool anm; bool defaults; };
static Par gen_par(Gen& g) { Par p; p.n = g.chance(1, 4) ? g.irange(20, 60) : g.small(1, 16); p.m = g.chance(1, 3) ? g.irange(1, 4) : 2; p.mu = g.chance(1, 5) ? g.irange(20, 50) : g.small(3, 14); if (g.chance(1, 60)) p.n = g.irange(61, 400); if (g.chance(1, 60)) p.mu = g.irange(51, 160); p.T = g.small(0, 12); p.ts = g.irange(2, std::min(p.mu - 1, 6)); p.rate = g.pick(std::vector<double>{0, 1, 1.0 / p.n, 0.3}); p.cp = g.pick(std::vector<double>{0, 1, 0.5}); p.anm = p.rate == 0 || g.flag(); p.defaults = g.chance(1, 8); if (p.defaults) { p.ts = 2; p.rate = 1.0 / p.n; p.cp = 0.8; p.anm = false; } return p; }
static std::string show(const Par& p) { std::ostringstream o; o << "n=" << p.n << " m=" << p.m << " mu=" << p.mu << " T=" << p.T << " tournament " << p.ts << " rate " << p.rate << " cp " << p.cp << (p.anm ? " anm" : "") << (p.defaults ? " defaults" : ""); return o.str(); }
static void config(Nsga2& a, const Par& p) { a.set_num_iterations(p.T); if (p.defaults) return; a.set_tournament_size(p.ts); a.set_mutation_rate(p.rate); a.set_allow_no_mutation(p.anm); a.set_crossover_probability(p.cp); }
// An offspring of the given parents (score: smaller is better) as the parameters allow
static void check_offspring(const Par& p, const std::vector<Ind>& par, const std::vector<std::pair<int, double>>& score, const BV& x) {
  auto better = [&](int i, int j) { return score[i].first < score[j].first || (score[i].first == score[j].first && score[i].second > score[j].second); };
  std::vector<int> el; for (int i = 0; i < p.mu; i++) { int not_better = 0; for (int j = 0; j < p.mu; j++) if (j != i && !better(j, i)) not_better++; if (not_better >= p.ts - 1) el.push_back(i); }
  auto mut = [&](BV y) { if (p.rate == 1) for (auto& b : y) b ^= 1; return y; };
  if (p.rate != 0 && p.rate != 1) { if (!p.anm && p.cp == 0) { /* differs from its parent: cannot be told with several parents */ bool only = true; for (int i : el) if (par[i].first != par[el[0]].first) only = false; if (only) REQUIRE(x != par[el[0]].first, "no-mutation", "offspring equal to the only parent although no mutation is forbidden"); } return; }
  if (p.cp == 0) { bool ok = false; for (int i : el) if (mut(par[i].first) == x) ok = true; REQUIRE(ok, "parent", "offspring " << pbt::show(x) << " comes from no parent which can win a tournament"); }
  else { BV y = mut(x); for (int b = 0; b < p.n; b++) { bool ok = false; for (int i : el) if (par[i].first[b] == y[b]) ok = true; REQUIRE(ok, "crossover", "bit " << b << " of offspring " << pbt::show(x) << " comes from no parent which can win a tournament"); } if (p.cp < 1) return; }
}
static std::vector<Ind> sorted(std::vector<Ind> v) { std::sort(v.begin(), v.end()); return v; }
static void check_run(Gen& g, const Par& p, const Rec& r, const Population& sol) {
  REQUIRE(r.bad.empty(), "argument", r.bad); REQUIRE(long(r.log.size()) == long(p.mu) * (1 + p.T), "count", r.log.size() << " evaluations instead of " << p.mu * (1 + p.T));
  std::vector<Ind> parents(r.log.begin(), r.log.begin() + p.mu); bool known = true; int trunc = 0;
  std::vector<std::pair<int, double>> score; { std::vector<Val> v; for (auto& x : parents) v.push_back(x.second); for (int f : ranks(v)) score.push_back({f, 0}); }
  for (int t = 0; t < p.T && known; t++) {
    std::vector<Ind> off(r.log.begin() + p.mu * (t + 1), r.log.begin() + p.mu * (t + 2)); for (auto& x : off) check_offspring(p, parents, score, x.first);
    std::vector<Ind> full = parents; full.insert(full.end(), off.begin(), off.end()); int N = full.size(); std::vector<Val> v; for (auto& x : full) v.push_back(x.second); std::vector<int> fr = ranks(v); std::vector<double> cd(N, 0);
    int last = 0, cnt = 0; for (;; last++) { int c = std::count(fr.begin(), fr.end(), last); if (cnt + c >= p.mu) break; cnt += c; }
    std::vector<bool> amb(last + 1, false);
    for (int f = 0; f <= last; f++) { std::vector<int> idx; for (int i = 0; i < N; i++) if (fr[i] == f) idx.push_back(i); for (int k = 0; k < p.m; k++) { std::sort(idx.begin(), idx.end(), [&](int i, int j) { return v[i][k] < v[j][k]; }); for (size_t i = 0; i + 1 < idx.size(); i++) if (v[idx[i]][k] == v[idx[i + 1]][k]) amb[f] = true; cd[idx[0]] = cd[idx.back()] = INFINITY; for (size_t i = 1; i + 1 < idx.size(); i++) cd[idx[i]] += v[idx[i + 1]][k] - v[idx[i - 1]][k]; } }
    std::vector<Ind> next; std::vector<std::pair<int, double>> ns; std::vector<int> lf; for (int i = 0; i < N; i++) if (fr[i] < last) { next.push_back(full[i]); ns.push_back({fr[i], cd[i]}); } else if (fr[i] == last) lf.push_back(i);
    int room = p.mu - int(next.size()); if (room < int(lf.size())) { trunc++; bool same = true; for (int i : lf) if (full[i] != full[lf[0]]) same = false; if (!same && amb[last]) known = false; std::stable_sort(lf.begin(), lf.end(), [&](int i, int j) { return cd[i] > cd[j]; }); if (!same && known) { double a = cd[lf[room - 1]], b = cd[lf[room]]; if (a == b || std::fabs(a - b) <= 1e-9 * std::fabs(a)) known = false; } }
    for (int i = 0; i < room; i++) { next.push_back(full[lf[i]]); ns.push_back({last, cd[lf[i]]}); } parents = next; score = ns;
    // selection by crowding distance is only predicted when no distance is ambiguous
    for (int f = 0; f <= last; f++) if (amb[f]) for (auto& s : score) if (s.first == f) s.second = 0;
  }
  if (trunc) g.label("truncated"); if (known) g.label("exact"); else g.label("ties");
  std::vector<Ind> got; REQUIRE(sol.bvs.size() == sol.values.size() && sol.get_size() >= 1 && sol.get_size() <= p.mu, "size", sol.get_size()); for (int i = 0; i < sol.get_size(); i++) got.push_back({sol.bvs[i], sol.values[i]});
  for (auto& x : got) { REQUIRE(int(x.first.size()) == p.n && int(x.second.size()) == p.m, "shape", ""); REQUIRE(r.f(x.first) == x.second, "genuine", "solution " << pbt::show(x.first) << " has value " << pbt::showv(r.f(x.first)) << " not " << pbt::showv(x.second)); REQUIRE(std::find(r.log.begin(), r.log.end(), x) != r.log.end(), "evaluated", "solution never evaluated"); for (auto& y : got) REQUIRE(!dom(y.second, x.second), "dominated", pbt::showv(y.second) << " dominates the other solution " << pbt::showv(x.second)); }
  if (p.mu >= 2 * p.m) for (int k = 0; k < p.m; k++) { double best = INFINITY, have = INFINITY; for (auto& x : r.log) best = std::min(best, x.second[k]); for (auto& x : got) have = std::min(have, x.second[k]); REQUIRE(best == have, "extreme", "best value " << best << " of objective " << k << " lost, solutions have " << have); }
  if (known) { std::vector<Val> v; for (auto& x : parents) v.push_back(x.second); auto fr = ranks(v); std::vector<Ind> want; for (int i = 0; i < p.mu; i++) if (fr[i] == 0) want.push_back(parents[i]); if (sorted(want) != sorted(got)) { for (auto& x : got) { bool in = std::find(want.begin(), want.end(), x) != want.end(); REQUIRE(in, "front", "solution " << pbt::showv(x.second) << " is not in the first front of the final population"); } FAIL("front", got.size() << " solutions instead of the " << want.size() << " points of the first front"); } }
}
PBT(nsga2, 2500, 40000) {
  Par p = gen_par(g); Prob q = gen_prob(g, p.n, p.m); g.note() << show(p) << " on " << q.name; g.nontrivial(p.T > 0 && p.n > 1 && p.m > 1); seed(g); Rec r(p.n, p.m, q.f); Nsga2 a(p.n, p.m, p.mu); config(a, p); a.minimize({&r}); check_run(g, p, r, a.get_solutions());
}
PBT(nsga2_reused, 1200, 15000) { // successive runs of one object with other parameters and functions
  Par p = gen_par(g); int runs = g.irange(2, 4); g.note() << runs << " runs"; g.nontrivial(p.n > 1); seed(g); Nsga2 a(p.n, p.m, p.mu); config(a, p);
  for (int t = 0; t < runs; t++) { if (t && g.chance(2, 3)) { Par q = gen_par(g); p.T = q.T; p.ts = std::min(q.ts, p.mu - 1); p.rate = q.rate; p.cp = q.cp; p.anm = q.anm || p.rate == 0; p.defaults = false; config(a, p); } Prob q = gen_prob(g, p.n, p.m); g.note() << " [" << show(p) << " on " << q.name << "]"; Rec r(p.n, p.m, q.f); a.minimize({&r}); check_run(g, p, r, a.get_solutions()); }
}
PBT(crossover_rate, 120, 1000) { // one offspring generation: share of recombined offspring and of flipped bits
  int n = 40, mu = 200; double cp = g.pick(std::vector<double>{0.1, 0.5, 0.8, 0.95}), rate = g.pick(std::vector<double>{0, 0, 0.1}); Par p{n, 2, mu, 1, 2, 0, cp, true, false}; p.rate = rate; seed(g); g.note() << "cp " << cp << " rate " << rate; g.nontrivial(true); uint64_t salt = g.seed32(); Rec r(n, 2, [=](const BV& x) { return Val{double(obj::hash(x, salt) % 1000), double(obj::hash(x, salt + 1) % 1000)}; }); Nsga2 a(n, 2, mu); config(a, p); a.minimize({&r});
  int clones = 0; double flips = 0, cl = 0; for (int i = mu; i < 2 * mu; i++) { int best = n; for (int j = 0; j < mu; j++) { int d = 0; for (int b = 0; b < n; b++) d += r.log[i].first[b] != r.log[j].first[b]; best = std::min(best, d); } bool clone = rate == 0 ? best == 0 : best <= 9; if (clone) { clones++; flips += best; cl += n; } }
  if (rate == 0) REQUIRE(std::fabs(clones - mu * (1 - cp)) <= 7 * std::sqrt(mu * cp * (1 - cp)) + 3, "crossover-rate", clones << " of " << mu << " offspring are copies of a parent, crossover probability " << cp);
}
