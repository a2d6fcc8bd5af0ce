// P17: local search climbs and stops only at local optima.
#include "algorithms.hh"
#include "objectives.hh"
using namespace alg; using obj::gen_obj; using obj::Obj;
static int dist(const BV& a, const BV& b) { int d = 0; for (size_t i = 0; i < a.size(); i++) d += a[i] != b[i]; return d; }
static double choose(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::round(r); }
// All points at distance r
static std::vector<BV> sphere(const BV& x, int r) { std::vector<BV> out; int n = x.size(); std::vector<int> idx(r); std::iota(idx.begin(), idx.end(), 0); while (true) { BV y = x; for (int i : idx) y[i] ^= 1; out.push_back(y); int i = r - 1; while (i >= 0 && idx[i] == n - r + i) i--; if (i < 0) break; idx[i]++; for (int j = i + 1; j < r; j++) idx[j] = idx[j - 1] + 1; } return out; }
static bool allowed(const Spec& s, int d, int n) { switch (s.hood) { case H_FLIP: return d == 1; case H_SBM: return d <= n; case H_BALL: return d >= 1 && d <= s.radius; default: return d == s.radius; } }
static int pick_n(Gen& g) { int n = g.small(1, 16); if (g.chance(1, 15)) n = g.irange(20, 60); if (g.chance(1, 60)) n = g.irange(100, 400); return n; }
static void start_ok(const Spec& s, const Recorder& r) { REQUIRE(!r.log.empty(), "start", s.name); if (!s.random_start && s.start.size() == size_t(s.n)) REQUIRE(r.log[0].x == s.start, "start", s.name << " starts at " << pbt::show(r.log[0].x) << " instead of " << pbt::show(s.start)); }

PBT(steepest, 3000, 40000) {
  int n = g.small(1, 16), T = g.chance(1, 2) ? 0 : g.small(1, 8); if (g.chance(1, 80)) { n = g.irange(71, 300); T = g.irange(1, 8); } Spec s = make_spec(g, A_SAHC, n, T); Obj o = gen_obj(g, n); long budget = g.chance(1, 4) ? g.irange(1, 100) : -1; seed(g); g.note() << s.name << " on " << o.name << " budget " << budget; Recorder r(o.f, n, false, budget); Inst i = s.make(); int reuse = g.irange(1, 3); bool done = true;
  for (int t = 0; t < reuse; t++) { r.log.clear(); done = run(i, r); } solution_t sol = i.a->get_solution(); start_ok(s, r);
  std::set<BV> cur{r.log[0].x}; double val = r.log[0].v; size_t p = 1; int it = 0; bool stopped = false;
  while (p < r.log.size()) {
    REQUIRE(!stopped, "continues", s.name << " evaluates more points after a local optimum"); REQUIRE(T == 0 || it < T, "iterations", s.name);
    size_t N = size_t(choose(n, s.radius)), m = std::min(N, r.log.size() - p); std::set<BV> block; for (size_t j = 0; j < m; j++) block.insert(r.log[p + j].x); REQUIRE(block.size() == m, "repeated-neighbour", s.name << " on " << o.name << " in iteration " << it);
    std::set<BV> origin; for (auto& c : cur) { bool ok = true; for (auto& y : block) if (dist(c, y) != s.radius) { ok = false; break; } if (ok) origin.insert(c); }
    REQUIRE(!origin.empty(), "not-a-neighbourhood", s.name << " on " << o.name << ": iteration " << it << " does not scan the neighbourhood of a best neighbour of the previous point");
    if (m < N) { REQUIRE(!done, "incomplete-scan", s.name); cur = origin; break; }
    double best = -1e300; for (size_t j = 0; j < m; j++) best = std::max(best, r.log[p + j].v);
    if (best > val) { val = best; cur.clear(); for (size_t j = 0; j < m; j++) if (r.log[p + j].v == best) cur.insert(r.log[p + j].x); g.label("move"); } else { cur = origin; stopped = true; }
    p += m; it++;
  }
  g.nontrivial(it > 1); REQUIRE(cur.count(sol.first) && sol.second == val, "reported", s.name << " on " << o.name << " reports " << pbt::show(sol.first) << " " << sol.second << ", current value " << val);
  if (done) { REQUIRE(stopped || it == T, "stops", s.name << " on " << o.name << " stopped after " << it << " iterations"); if (T == 0 || it < T) for (auto& y : sphere(sol.first, s.radius)) REQUIRE(o.f(y) <= sol.second, "local-optimum", s.name << " on " << o.name << " stops at " << pbt::show(sol.first) << " although " << pbt::show(y) << " is better"); }
}
PBT(steepest_ties, 300, 3000) { // ties are broken among the best neighbours, uniformly
  int n = g.irange(3, 8), reps = g.thorough ? 4000 : 1500; seed(g); BV st(n, 0); Recorder r([](const BV& x) { int w = 0; for (auto b : x) w += b; return double(std::min(w, 1)); }, n); nb::SingleBitFlipIterator it(n); SteepestAscentHillClimbing a(n, &it); a.set_num_iterations(1); a.set_random_initialization(false); a.set_starting_point(st); std::vector<Function *> fs{&r}; std::vector<int> c(n); g.nontrivial(true); g.note() << "n=" << n << " " << reps << " runs";
  for (int t = 0; t < reps; t++) { r.log.clear(); a.maximize(fs); a.finalize(); auto& x = a.get_solution().first; for (int i = 0; i < n; i++) c[i] += x[i]; } double e = double(reps) / n, sd = std::sqrt(e * (1 - 1.0 / n)); for (int i = 0; i < n; i++) REQUIRE(std::fabs(c[i] - e) < 7 * sd, "tie-breaking", "bit " << i << " chosen " << c[i] << " times out of " << reps);
}
PBT(first_ascent, 3000, 40000) {
  int n = g.small(1, 16), T = g.chance(1, 2) ? 0 : g.small(1, 20); if (g.chance(1, 80)) { n = g.irange(71, 300); T = g.irange(1, 20); } Spec s = make_spec(g, A_FAHC, n, T); Obj o = gen_obj(g, n); long budget = g.chance(1, 4) ? g.irange(1, 100) : -1; seed(g); g.note() << s.name << " on " << o.name << " budget " << budget; Recorder r(o.f, n, false, budget); Inst i = s.make(); int reuse = g.irange(1, 3); bool done = true;
  for (int t = 0; t < reuse; t++) { r.log.clear(); done = run(i, r); } solution_t sol = i.a->get_solution(); start_ok(s, r);
  BV cur = r.log[0].x; double val = r.log[0].v; std::set<BV> seen; size_t N = size_t(choose(n, s.radius)); int it = 0, moves = 0; bool stopped = false;
  for (size_t p = 1; p < r.log.size(); p++) {
    auto& e = r.log[p]; REQUIRE(!stopped && (T == 0 || it < T), "continues", s.name << " on " << o.name << " evaluates more points than its iterations imply");
    REQUIRE(dist(cur, e.x) == s.radius, "not-a-neighbour", s.name << " on " << o.name << ": " << pbt::show(e.x) << " is not a neighbour of " << pbt::show(cur)); REQUIRE(seen.insert(e.x).second, "repeated-neighbour", s.name << " " << pbt::show(e.x));
    if (e.v > val) { cur = e.x; val = e.v; seen.clear(); it++; moves++; } else if (seen.size() == N) { stopped = true; it++; }
  }
  g.nontrivial(moves > 0); REQUIRE(sol.first == cur && sol.second == val, "reported", s.name << " on " << o.name << " reports " << pbt::show(sol.first) << " " << sol.second << ", current " << pbt::show(cur) << " " << val);
  if (done) { REQUIRE(stopped || it == T, "stops", s.name << " on " << o.name << " stopped after " << it << " iterations"); if (T == 0 || it < T) for (auto& y : sphere(sol.first, s.radius)) REQUIRE(o.f(y) <= sol.second, "local-optimum", s.name << " on " << o.name << " stops at " << pbt::show(sol.first) << " although " << pbt::show(y) << " is better"); }
}
// RLS, (1+1) EA, self-adjusting (1+1) EA, MMAS: the accepted point is determined by the values
PBT(elitist, 6000, 80000) {
  int k = g.pick(std::vector<int>{A_RLS, A_RLS, A_1P1, A_SELF, A_MMAS}), n = pick_n(g), T = g.small(1, 60); Spec s = make_spec(g, k, n, T); Obj o = gen_obj(g, n); bool inc = g.flag(); long budget = g.chance(1, 4) ? g.irange(1, 60) : -1; seed(g); g.note() << s.name << " on " << o.name << " budget " << budget; g.label(s.name.substr(0, s.name.find(' ')));
  Recorder r(o.f, n, inc, budget); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; Inst i = s.make(); int reuse = g.irange(1, 2); bool done = true; for (int t = 0; t < reuse; t++) { r.log.clear(); done = run(i, r); } (void)done; solution_t sol = i.a->get_solution(); if (k == A_RLS) start_ok(s, r); REQUIRE(!r.bad_inc, "incremental", s.name << ": " << r.what);
  BV cur = r.log[0].x; double val = r.log[0].v; int moves = 0, fails = 0;
  for (size_t p = 1; p < r.log.size(); p++) {
    auto& e = r.log[p]; int d = dist(cur, e.x); if (k == A_RLS) REQUIRE(allowed(s, d, n), "not-a-neighbour", s.name << " on " << o.name << ": evaluation " << p << " is " << pbt::show(e.x) << " at distance " << d << " of the current point " << pbt::show(cur));
    REQUIRE(s.patience <= 0 || fails < s.patience, "patience", s.name);
    if (s.strict ? e.v > val : e.v >= val) { if (e.x != cur) moves++; cur = e.x; val = e.v; fails = 0; } else fails++;
  }
  g.nontrivial(moves > 0); REQUIRE(sol.first == cur && sol.second == val, "reported", s.name << " on " << o.name << " reports " << pbt::show(sol.first) << " " << sol.second << ", current " << pbt::show(cur) << " " << val);
}
PBT(walk, 1500, 20000) {
  int n = pick_n(g), T = g.small(1, 60); Spec s = make_spec(g, A_WALK, n, T); Obj o = gen_obj(g, n); bool inc = g.flag(); seed(g); g.note() << s.name << " on " << o.name; Recorder r(o.f, n, inc); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; Inst i = s.make(); run(i, r); if (g.flag()) { r.log.clear(); run(i, r); } start_ok(s, r); g.nontrivial(T > 1 && n > 1); REQUIRE(!r.bad_inc, "incremental", r.what);
  for (size_t p = 1; p < r.log.size(); p++) { int d = dist(r.log[p - 1].x, r.log[p].x); REQUIRE(allowed(s, d, n), "not-a-neighbour", s.name << " step " << p << " moves by " << d << " bits"); }
  REQUIRE(i.a->get_solution().second == r.best(), "reported", s.name);
}
PBT(annealing, 3000, 40000) { // possible current points after each evaluation
  int n = pick_n(g), T = g.small(1, 80); Spec s = make_spec(g, A_SA, n, T); Obj o = gen_obj(g, n); seed(g); g.note() << s.name << " on " << o.name; Recorder r(o.f, n); Inst i = s.make(); run(i, r); if (g.flag()) { r.log.clear(); run(i, r); } start_ok(s, r);
  size_t init = s.init; REQUIRE(r.log.size() == init + T, "count", r.log.size()); for (size_t t = 0; t < size_t(s.lambda); t++) REQUIRE(allowed(s, dist(r.log[1 + 2 * t].x, r.log[2 + 2 * t].x), n), "trial", s.name << " trial " << t);
  std::map<BV, double> S; double b = -1e300; BV bx; for (size_t p = 0; p < init; p++) if (r.log[p].v > b) { b = r.log[p].v; bx = r.log[p].x; } S[bx] = b; int down = 0;
  for (size_t p = init; p < r.log.size(); p++) { auto& e = r.log[p]; std::map<BV, double> N; bool feasible = false; for (auto& c : S) { if (!allowed(s, dist(c.first, e.x), n)) continue; feasible = true; if (e.v >= c.second) N[e.x] = e.v; else { N[c.first] = c.second; N[e.x] = e.v; down++; } } REQUIRE(feasible, "not-a-neighbour", s.name << " on " << o.name << " evaluation " << p << " is " << pbt::show(e.x)); S = N; }
  g.nontrivial(down > 0 && n > 1); REQUIRE(i.a->get_solution().second == r.best(), "reported", s.name << " reports " << i.a->get_solution().second << " best " << r.best());
}
// Acceptance of worse moves. OneMax and single bit flips: every move changes the value by one.
static void accept_stats(Recorder& r, size_t init, BV cur, double val, int& down, int& acc, int *first_fail = nullptr) {
  down = acc = 0; (void)first_fail; std::vector<BV> xs; for (size_t p = init; p < r.log.size(); p++) xs.push_back(r.log[p].x);
  for (size_t p = 0; p < xs.size(); p++) { double v = r.log[init + p].v; if (v >= val) { cur = xs[p]; val = v; continue; } if (p + 1 == xs.size()) break; bool stay = dist(cur, xs[p + 1]) == 1, move = dist(xs[p], xs[p + 1]) == 1; if (stay == move) { throw pbt::Discard{}; } down++; if (move) { acc++; cur = xs[p]; val = v; } }
}
PBT(acceptance, 200, 2000) {
  int n = g.irange(8, 40), trials = 60, T = g.thorough ? 8000 : 3000, mode = g.below(2); double p = g.real(0.1, 0.9); seed(g); g.nontrivial(true); Recorder r([](const BV& x) { double w = 0; for (auto b : x) w += b; return w; }, n); nb::SingleBitFlip h(n); SimulatedAnnealing a(n, &h); int k = mode == 0 ? 1000000000 : g.irange(1, 5); a.set_num_iterations(T); a.set_num_trials(trials); a.set_initial_acceptance_probability(p); a.set_num_transitions(k); a.set_beta_ratio(mode == 0 ? 1.2 : 1e9); std::vector<Function *> fs{&r}; g.note() << "n=" << n << " p=" << p << " transitions " << k; a.maximize(fs);
  size_t init = 1 + 2 * trials; double b = -1; BV bx; bool anydown = false; for (size_t i = 0; i < init; i++) { if (r.log[i].v > b) { b = r.log[i].v; bx = r.log[i].x; } if (i >= 2 && i % 2 == 0 && r.log[i].v < r.log[i - 1].v) anydown = true; } if (!anydown) throw pbt::Discard{};
  int down, acc; accept_stats(r, init, bx, b, down, acc);
  if (mode == 0) REQUIRE(std::fabs(acc - down * p) < 7 * std::sqrt(down * p * (1 - p)) + 2, "acceptance", "initial acceptance probability " << p << ", " << acc << " of " << down << " moves down by the average loss accepted");
  else REQUIRE(acc <= k, "cooling", acc << " moves down accepted, cooling to zero temperature after " << k);
}
// Random local search with an indefinite number of iterations ends only by patience.
PBT(patience, 800, 8000) {
  int n = g.irange(1, 12), pat = g.irange(1, 40); bool strict = g.chance(3, 4); Obj o = gen_obj(g, n); seed(g); HoodSpec h = gen_hood(g, n); auto hood = make_hood(h, n); RandomLocalSearch a(n, hood.get()); a.set_num_iterations(0); a.set_patience(pat); if (strict) a.set_compare([](double x, double y) { return x > y; }); bool inc = g.flag(); a.set_incremental_evaluation(inc); long budget = 3000; Recorder r(o.f, n, inc || g.chance(1, 4), budget); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; std::vector<Function *> fs{&r}; bool done = true; if (g.chance(1, 3)) { r.budget = 200; try { a.maximize(fs); } catch (hnco::exception::LastEvaluation&) {} r.log.clear(); r.budget = budget; } g.note() << h.name << " patience " << pat << (inc ? " incremental" : "") << " on " << o.name; try { a.maximize(fs); } catch (hnco::exception::LastEvaluation&) { done = false; } a.finalize(); g.nontrivial(r.log.size() > size_t(pat) + 2);
  double val = r.log[0].v; int fails = 0; for (size_t p = 1; p < r.log.size(); p++) { REQUIRE(fails < pat, "patience", "continued after " << pat << " consecutive rejections"); if (strict ? r.log[p].v > val : r.log[p].v >= val) { val = r.log[p].v; fails = 0; } else fails++; }
  if (done) REQUIRE(fails == pat, "patience", "stopped after " << fails << " consecutive rejections with patience " << pat); REQUIRE(a.get_solution().second == val, "reported", a.get_solution().second);
}
PBT(is_locally_maximal, 8000, 80000) { // the test offered to users, with iterators used before, at random and at locally optimal points
  int n = g.small(1, 14), rad = g.irange(1, n); if (g.chance(1, 60)) { n = g.irange(40, 300); rad = 1; } int rounds = g.irange(1, 4); bool flip = rad == 1 && g.flag(); Obj o = gen_obj(g, n); seed(g); Recorder r(o.f, n); g.note() << o.name << " n=" << n << " radius " << rad << ":"; bool seen[2] = {false, false};
  std::unique_ptr<nb::NeighborhoodIterator> it; if (flip) it.reset(new nb::SingleBitFlipIterator(n)); else it.reset(new nb::HammingSphereIterator(n, rad));
  for (int t = 0; t < rounds; t++) {
    BV x = g.bits(n); if (g.chance(2, 3)) for (bool up = true; up;) { up = false; for (auto& y : sphere(x, rad)) if (o.f(y) > o.f(x)) { x = y; up = true; break; } }
    bool want = true; for (auto& y : sphere(x, rad)) want = want && !(o.f(y) > o.f(x)); bool got = hnco::function::bv_is_locally_maximal(x, r, *it); g.note() << " " << pbt::show(x) << (want ? "+" : "-"); seen[want] = true; REQUIRE(got == want, "locally-maximal", "answer " << got << " for " << pbt::show(x) << " on " << o.name << " radius " << rad);
  }
  g.nontrivial(n > 2 && seen[0]); if (seen[1]) g.label("optimum");
}
