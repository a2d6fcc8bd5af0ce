// P25: evolutionary algorithms follow their published scheme.
#include "algorithms.hh"
#include "objectives.hh"
using namespace alg; typedef std::vector<double> VD;
struct Capture { std::ostringstream o; std::streambuf *old; Capture(): old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
// Objective without ties: distinct points have distinct values (up to hash collisions)
static std::function<double(const BV&)> injective(Gen& g, int n) {
  uint64_t salt = g.seed32(); double w = g.pick(std::vector<double>{0, 1, 4}); VD c(n); for (auto& v : c) v = g.irange(-3, 3); double off = g.pick(std::vector<double>{0, 0, -500, 500});
  return [salt, w, c, off](const BV& x) { double s = off; for (size_t i = 0; i < x.size(); i++) s += w * c[i] * x[i]; return s + double(obj::hash(x, salt) >> 21) / double(1ULL << 43); };
}
// Martingale test: sums of (x - p) against predictable weights stay within 8 sigma (+8)
struct Mart { VD s, v; void add(size_t k, double w, double x, double p, double var = -1) { if (s.size() <= k) { s.resize(k + 1); v.resize(k + 1); } s[k] += w * (x - p); v[k] += w * w * (var < 0 ? p * (1 - p) : var); }
  void check(const std::string& what) { for (size_t k = 0; k < s.size(); k++) REQUIRE(std::fabs(s[k]) <= 8 * std::sqrt(v[k]) + 8, "distribution", what << ": statistic " << k << " is " << s[k] << ", standard deviation " << std::sqrt(v[k])); } };
static std::vector<VD> rows(const std::string& s) { std::vector<VD> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) { std::istringstream j(l); VD v; double d; while (j >> d) v.push_back(d); r.push_back(v); } return r; }
static bool near6(double a, double b) { return std::fabs(a - b) <= 2e-5 * (std::fabs(b) + 1e-3) + 1e-9; }
static double clampd(double x, double lo, double hi) { return std::max(lo, std::min(hi, x)); }
static BV comp(BV x) { for (auto& b : x) b ^= 1; return x; }
static int dist(const BV& a, const BV& b) { int d = 0; for (size_t i = 0; i < a.size(); i++) d += a[i] != b[i]; return d; }
// Flips of a mutant of x, each bit with probability p (all zeros possible only if allowed)
static void flips(Mart& m, size_t k, const BV& x, const BV& y, double p, bool none_allowed) {
  int n = x.size(), d = dist(x, y); if (!none_allowed) REQUIRE(d > 0 || n == 0, "no-mutation", "an offspring equals its parent"); double z = none_allowed ? 1 : 1 - std::pow(1 - p, n); if (!(z > 1e-9)) return;
  double q = p / z, e1 = n * p / z, e2 = (n * p * (1 - p) + double(n) * n * p * p) / z; m.add(k, 1, d, e1, std::max(0.0, e2 - e1 * e1)); m.add(k + 1, p < 0.5 ? -1 : 1, d, e1, std::max(0.0, e2 - e1 * e1)); for (int i = 0; i < n; i++) m.add(k + 2 + i, 1, x[i] != y[i], q);
}
template<class A> static std::string go(A& a, Recorder& r) { Capture c; std::vector<Function *> fs{&r}; a.maximize(fs); a.finalize(); return c.o.str(); }

PBT(self_adjusting, 1500, 20000) { // (1+1) EA with self-adjusting rate: rates and flips
  int n = g.irange(2, 40), T = g.irange(1, 120); if (g.chance(1, 20)) n = g.irange(41, 400); if (g.chance(1, 20)) T = g.irange(121, 600); auto f = injective(g, n); bool ties = g.chance(1, 3); if (ties) { auto o = obj::gen_obj(g, n); f = o.f; } bool incr = g.chance(1, 3), anm = g.flag(); seed(g); Recorder r(f, n, incr); hnco::algorithm::SelfAdjustingOnePlusOneEa a(n);
  double F = 1 + 1.0 / n, s = 4, lo = 1.0 / (double(n) * n), hi = 0.5, in = 1.0 / n; if (g.flag()) a.set_update_strength(F = g.real(1.01, 3)); if (g.flag()) a.set_success_ratio(s = g.real(0.2, 6)); if (g.flag()) a.set_mutation_rate_max(hi = g.real(in, 1)); if (g.flag()) a.set_mutation_rate_min(lo = g.real(0.001, in)); if (g.flag()) a.set_mutation_rate_init(in = clampd(g.unit(), lo, hi)); a.set_allow_no_mutation(anm); a.set_incremental_evaluation(incr); a.set_log_mutation_rate(true); a.set_num_iterations(T); int runs = g.irange(1, 2); g.note() << "n=" << n << " T=" << T << " strength " << F << " ratio " << s << " rates " << lo << " " << in << " " << hi << (incr ? " incremental" : ""); g.nontrivial(T > 3);
  for (int k = 0; k < runs; k++) { if (k && g.flag()) a.set_mutation_rate_init(in = clampd(g.unit(), lo, hi)); r.log.clear(); auto L = rows(go(a, r)); REQUIRE(int(r.log.size()) == T + 1 && int(L.size()) == T, "count", r.log.size() << " " << L.size()); BV x = r.log[0].x; double v = r.log[0].v, p = in; Mart m;
    for (int t = 0; t < T; t++) { auto& e = r.log[t + 1]; flips(m, 0, x, e.x, p, anm); bool ok = e.v >= v; if (ok) { x = e.x; v = e.v; p = std::min(p * std::pow(F, s), hi); } else p = std::max(p / F, lo); REQUIRE(L[t].size() == 1 && near6(L[t][0], p), "rate", "iteration " << t << " (" << (ok ? "success" : "failure") << "): mutation rate " << L[t][0] << " instead of " << p); p = std::max(p, 0.0); } m.check("flips"); auto sol = a.get_solution(); REQUIRE(sol.first == x && sol.second == v, "solution", ""); }
}
PBT(two_rate, 1200, 15000) { // half of the mutants at half the rate, half at twice the rate
  int n = g.irange(8, 60), la = g.irange(2, 14), T = g.irange(1, 60); if (g.chance(1, 20)) n = g.irange(61, 400); if (g.chance(1, 20)) la = g.irange(15, 150); auto f = injective(g, n); bool anm = g.flag(); seed(g); Recorder r(f, n); hnco::algorithm::TwoRateOnePlusLambdaEa a(n, la); double lo = std::min(2.0 / n, 0.25), hi = 0.25, in = lo; if (g.flag()) a.set_mutation_rate_init(in = g.real(lo, hi)); a.set_allow_no_mutation(anm); a.set_log_mutation_rate(true); a.set_num_iterations(T); g.note() << "n=" << n << " lambda=" << la << " T=" << T << " init " << in; g.nontrivial(T > 3);
  auto L = rows(go(a, r)); REQUIRE(int(r.log.size()) == 1 + T * la && int(L.size()) == T, "count", r.log.size() << " " << L.size()); BV x = r.log[0].x; double v = r.log[0].v, p = in; Mart m, c; int mid = la / 2;
  for (int t = 0; t < T; t++) { int best = -1; bool both = false; for (int i = 0; i < la; i++) { auto& e = r.log[1 + t * la + i]; flips(m, i < mid ? 0 : 2 + n, x, e.x, i < mid ? p / 2 : 2 * p, anm); if (best < 0 || e.v > r.log[1 + t * la + best].v) { best = i; both = false; } else if (e.v == r.log[1 + t * la + best].v && (i < mid) != (best < mid)) both = true; } double dn = std::max(p / 2, lo), up = std::min(2 * p, hi); auto& b = r.log[1 + t * la + best]; if (b.v > v) { v = b.v; x = b.x; }
    double got = L[t].at(0); bool d = near6(got, dn), u = near6(got, up); REQUIRE(d || u, "rate", "iteration " << t << ": " << got << " instead of " << dn << " or " << up); if (!both && dn < up) c.add(0, 1, (best < mid) ? d : u, 0.75); if (!both && dn < up) c.add(best < mid ? 1 : 2, 1, d, best < mid ? 0.75 : 0.25); p = d ? dn : up; }
  m.check("flips"); c.check("adaptation");
}
PBT(two_rate_adaptation, 60, 600) { // the winning rate is taken three times in four
  int n = 20, la = 6, T = 2500; auto f = injective(g, n); seed(g); Recorder r(f, n); hnco::algorithm::TwoRateOnePlusLambdaEa a(n, la); a.set_log_mutation_rate(true); a.set_allow_no_mutation(g.flag()); a.set_num_iterations(T); g.note() << "n=20 lambda=6"; g.nontrivial(true); auto L = rows(go(a, r)); double p = 0.1, lo = 0.1, hi = 0.25; Mart c; for (int t = 0; t < T; t++) { int best = 0; bool both = false; for (int i = 1; i < la; i++) { double d = r.log[1 + t * la + i].v - r.log[1 + t * la + best].v; if (d > 0) { best = i; both = false; } else if (d == 0 && (i < 3) != (best < 3)) both = true; } double dn = std::max(p / 2, lo), up = std::min(2 * p, hi); bool d = near6(L[t].at(0), dn); REQUIRE(d || near6(L[t][0], up), "rate", L[t][0]); if (!both) c.add(best < 3 ? 0 : 1, 1, d, best < 3 ? 0.75 : 0.25); p = d ? dn : up; } c.check("adaptation");
}
PBT(information_theoretic, 3000, 40000) { // mutation rate and centre of the information-theoretic EA
  using hnco::algorithm::InformationTheoreticEa; int n = g.irange(2, 30), pop = g.irange(2, 14); if (g.chance(1, 20)) n = g.irange(31, 300); if (g.chance(1, 20)) pop = g.irange(15, 150); int sel = g.irange(1, pop - 1), T = g.irange(1, 25), rep = g.below(5), hw = g.irange(0, n); bool inj = g.flag(), anm = g.flag(); std::function<double(const BV&)> f; if (rep == 3) { // neighbours differ in value, and values print exactly
    uint64_t salt = g.seed32(); int m = g.pick(std::vector<int>{1, 3, 40000}); f = [m, salt](const BV& x) { int w = 0; for (auto b : x) w += b; return double(2 * (obj::hash(x, salt) % m) + (w & 1)); }; } else if (inj) f = injective(g, n); else { int m = g.irange(1, 5); uint64_t salt = g.seed32(); f = [m, salt](const BV& x) { return double(obj::hash(x, salt) % m); }; } seed(g); Recorder r(f, n); InformationTheoreticEa a(n, pop);
  double lo = 1.0 / n, hi = 0.5, in = 1.0 / n, lr = 0.01; if (g.flag()) a.set_learning_rate(lr = g.pick(VD{0, 1, 0.5, g.unit()})); if (g.flag()) a.set_mutation_rate_min(lo = g.unit() * 0.3); if (g.flag()) a.set_mutation_rate_max(hi = g.real(std::max(lo, 0.3), 1)); in = clampd(in, lo, hi); if (g.chance(2, 3)) in = g.real(lo, hi); if (lo == 0 && !anm) lo = 0.01; in = std::max(in, lo); hi = std::max(hi, lo); if (g.chance(1, 8)) lo = in = hi = 1; a.set_mutation_rate_min(lo); a.set_mutation_rate_max(hi); a.set_mutation_rate_init(in); a.set_selection_size(sel); a.set_replacement(rep); a.set_initial_hamming_weight(hw); a.set_allow_no_mutation(anm); a.set_log_mutation_rate(true); a.set_log_center_fitness(true); a.set_num_iterations(T); g.note() << "n=" << n << " population " << pop << " selection " << sel << " T=" << T << " replacement " << rep << " rates " << lo << " " << in << " " << hi << " learning " << lr << (inj ? "" : " with ties"); g.nontrivial(T > 1); g.label("replacement " + std::to_string(rep));
  int runs = g.irange(1, 2); for (int k = 0; k < runs; k++) { r.log.clear(); auto L = rows(go(a, r)); REQUIRE(int(L.size()) == T, "count", L.size()); size_t at = 0; auto next = [&]() -> decltype(r.log[0]) { REQUIRE(at < r.log.size(), "count", "only " << r.log.size() << " evaluations"); return r.log[at++]; };
    auto& e0 = next(); BV c = e0.x; double cv = e0.v, p = in; if (rep == 4) REQUIRE(std::accumulate(c.begin(), c.end(), 0) == hw, "initial-weight", pbt::show(c) << " instead of weight " << hw); Mart m, coin; bool sure = true, unique = true; auto one = [&](const std::vector<std::pair<double, BV>>& P) { for (auto& q : P) if (q.first == P[0].first && q.second != P[0].second) return false; return true; };
    for (int t = 0; t < T; t++) { if (!unique) { g.label("several best offspring"); at = r.log.size(); break; } if (!sure && (rep == 2 || rep == 3)) { g.label("rate about 0.5"); at = r.log.size(); break; } std::vector<std::pair<double, BV>> P; for (int i = 0; i < pop; i++) { auto& e = next(); P.push_back({e.v, e.x}); flips(m, 0, c, e.x, p, anm); } std::stable_sort(P.begin(), P.end(), [](auto& x, auto& y) { return x.first > y.first; });
      VD like(n), mask(n); double target = 0; double ev = P[sel - 1].first; int a0 = 0, a1 = 0; while (P[a0].first > ev) a0++; a1 = a0; while (a1 < pop && P[a1].first == ev) a1++; double w = double(sel - a0) / (a1 - a0); for (int i = 0; i < a1; i++) { double q = i < a0 ? 1 : w; for (int j = 0; j < n; j++) { like[j] += q * P[i].second[j]; mask[j] += q * (P[i].second[j] ^ c[j]); } target += q * dist(P[i].second, c); } target /= double(sel) * n;
      const double eps = 1e-9; switch (rep) {
      case 0: if (P[0].first >= cv) { unique = one(P); c = P[0].second; cv = P[0].first; } break;
      case 1: unique = one(P); c = P[0].second; cv = P[0].first; break;
      case 2: { auto& e = next(); for (int j = 0; j < n; j++) { double d = 2 * like[j] - sel; if (std::fabs(d) <= eps) { if (w == 1) coin.add(0, 1, e.x[j], 0.5); } else REQUIRE(e.x[j] == ((d > 0) == (p < 0.5)), "centre", "iteration " << t << " bit " << j << ": " << int(e.x[j]) << " with weight " << like[j] << " of " << sel << " at rate " << p); } c = e.x; cv = e.v; break; }
      case 3: { double best = p < 0.5 ? *std::max_element(mask.begin(), mask.end()) : *std::min_element(mask.begin(), mask.end()), d = (p < 0.5 ? 1 : -1) * (2 * best - sel); bool moved; if (d > eps) moved = true; else if (d < -eps) moved = false; else { std::ostringstream o, o2; o << cv; o2 << L[t].at(1); moved = o.str() != o2.str(); if (w == 1) coin.add(1, 1, moved, 0.5); }
          if (moved) { auto& e = next(); REQUIRE(dist(e.x, c) == 1, "step", "iteration " << t << ": the centre moved by " << dist(e.x, c)); for (int j = 0; j < n; j++) if (e.x[j] != c[j]) REQUIRE(std::fabs(mask[j] - best) <= eps, "step-bit", "iteration " << t << ": bit " << j << " with weight " << mask[j] << " instead of " << best); c = e.x; cv = e.v; } break; }
      default: break;
      }
      p += lr * (target - p); sure = std::fabs(p - 0.5) > 1e-9 || (p > hi + 1e-9) || p < lo - 1e-9; p = clampd(p, lo, hi); REQUIRE(L[t].size() == 2 && near6(L[t][0], p), "rate", "iteration " << t << ": mutation rate " << L[t][0] << " instead of " << p); REQUIRE(near6(L[t][1], cv), "centre-fitness", "iteration " << t << ": " << L[t][1] << " instead of " << cv); }
    REQUIRE(at == r.log.size(), "count", r.log.size() << " evaluations instead of " << at); m.check("flips"); coin.check("ties"); }
}
PBT(one_plus_lambda_lambda, 1500, 20000) { // mutation phase, crossover phase, replacement
  int n = g.irange(2, 40); bool many = g.chance(1, 20); if (many) n = g.irange(41, 300); int la = g.irange(1, std::min(n, many ? 100 : 12)), T = g.irange(1, 40); bool inj = g.chance(3, 4); std::function<double(const BV&)> f; if (inj) f = injective(g, n); else f = obj::gen_obj(g, n).f; seed(g); Recorder r(f, n); hnco::algorithm::OnePlusLambdaCommaLambdaGa a(n, la); double p = double(la) / n, b = 1.0 / la; if (g.flag()) a.set_mutation_rate(p = g.pick(VD{0, 1, g.unit()})); if (la == 1 || g.flag()) a.set_crossover_bias(b = g.real(0.01, 0.99)); a.set_num_iterations(T); g.note() << "n=" << n << " lambda=" << la << " T=" << T << " rate " << p << " bias " << b; g.nontrivial(T > 1);
  go(a, r); REQUIRE(int(r.log.size()) == 1 + 2 * T * la, "count", r.log.size()); std::set<BV> xs{r.log[0].x}; double v = r.log[0].v; Mart m;
  for (int t = 0; t < T && xs.size() == 1; t++) { const BV x = *xs.begin(); int base = 1 + 2 * t * la, d = dist(x, r.log[base].x); double bm = -INFINITY, bc = -INFINITY; std::set<BV> mu; for (int i = 0; i < la; i++) { auto& e = r.log[base + i]; REQUIRE(dist(e.x, x) == d, "radius", "iteration " << t << ": mutants at distances " << d << " and " << dist(e.x, x)); if (e.v > bm) { bm = e.v; mu.clear(); } if (e.v == bm) mu.insert(e.x); } m.add(0, 1, d, n * p, n * p * (1 - p));
    std::set<BV> ch; for (int i = 0; i < la; i++) { auto& e = r.log[base + la + i]; if (mu.size() == 1) { const BV& y = *mu.begin(); for (int j = 0; j < n; j++) { if (y[j] == x[j]) REQUIRE(e.x[j] == x[j], "crossover", "iteration " << t << ": bit " << j << " comes from neither parent"); else m.add(2, 1, e.x[j] == y[j], b); } } else { bool ok = false; for (auto& y : mu) { bool all = true; for (int j = 0; j < n; j++) if (y[j] == x[j] && e.x[j] != x[j]) all = false; ok = ok || all; } REQUIRE(ok, "crossover", "iteration " << t << ": no best mutant explains the child"); } if (e.v > bc) { bc = e.v; ch.clear(); } if (e.v == bc) ch.insert(e.x); } if (bc >= v) { v = bc; xs = ch; } }
  m.check("rates"); if (xs.size() == 1) { auto s = a.get_solution(); REQUIRE(s.first == *xs.begin() && s.second == v, "solution", s.second << " instead of " << v); }
}
PBT(plus_comma, 2500, 30000) { // (mu+lambda) and (mu,lambda): offspring come from the current parents
  bool plus = g.flag(); int n = g.irange(10, 40), mu = g.irange(1, 8); bool many = g.chance(1, 20); if (many) { n = g.irange(20, 300); mu = g.irange(1, 100); } int la = g.irange(plus ? 1 : mu, many ? 120 : 14), T = g.irange(2, 12); auto f = injective(g, n); double p = mu == 1 ? g.pick(VD{0, 1, 1.0 / n, g.unit()}) : double(g.flag()); bool anm = p == 0 || g.flag(); seed(g); Recorder r(f, n); std::shared_ptr<hnco::algorithm::IterativeAlgorithm> a; g.note() << (plus ? "plus" : "comma") << " n=" << n << " mu=" << mu << " lambda=" << la << " T=" << T << " rate " << p; g.nontrivial(mu > 1);
  if (plus) { auto b = std::make_shared<hnco::algorithm::MuPlusLambdaEa>(n, mu, la); b->set_mutation_rate(p); b->set_allow_no_mutation(anm); b->set_num_iterations(T); a = b; } else { auto b = std::make_shared<hnco::algorithm::MuCommaLambdaEa>(n, mu, la); b->set_mutation_rate(p); b->set_allow_no_mutation(anm); b->set_num_iterations(T); a = b; }
  go(*a, r); typedef std::vector<std::pair<double, BV>> Pop; Pop par; size_t at = 0; auto take = [&](int k) { Pop q; for (int i = 0; i < k; i++) { REQUIRE(at < r.log.size(), "count", r.log.size()); q.push_back({r.log[at].v, r.log[at].x}); at++; } return q; }; bool known = plus; if (plus) par = take(mu); else take(1); Mart m, c;
  for (int t = 0; t < T; t++) { Pop off = take(la); if (known) for (auto& o : off) { if (mu == 1) flips(m, 0, par[0].second, o.second, p, anm); else { BV want = p == 0 ? o.second : comp(o.second); int mult = 0, ix = -1; for (int i = 0; i < mu; i++) if (par[i].second == want) { mult++; ix = i; } REQUIRE(mult > 0, "parent", "iteration " << t << ": an offspring comes from none of the " << mu << " parents"); (void)ix; for (int i = 0; i < mu; i++) { int k = 0; bool first = true; for (int j = 0; j < mu; j++) if (par[j].second == par[i].second) { k++; if (j < i) first = false; } if (first && k < mu) c.add(i, 1, par[i].second == want, double(k) / mu); } } }
    Pop all = off; if (plus) all.insert(all.end(), par.begin(), par.end()); std::sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.first > y.first; }); all.resize(mu); par = all; known = true; }
  REQUIRE(at == r.log.size(), "count", r.log.size()); m.check("flips"); c.check("choice of parents");
}
PBT(parents_uniform, 60, 600) { // every parent is as likely as any other
  bool plus = g.flag(); int n = 40, mu = g.irange(2, 6), la = 3000; auto f = injective(g, n); seed(g); Recorder r(f, n); g.note() << (plus ? "plus" : "comma") << " mu=" << mu; g.nontrivial(true); std::map<BV, int> par, off; if (plus) { hnco::algorithm::MuPlusLambdaEa a(n, mu, la); a.set_mutation_rate(1); a.set_num_iterations(1); go(a, r); for (int i = 0; i < mu; i++) par[r.log[i].x]++; for (size_t i = mu; i < r.log.size(); i++) off[comp(r.log[i].x)]++; } else { hnco::algorithm::MuCommaLambdaEa a(n, mu, la); a.set_mutation_rate(1); a.set_num_iterations(1); go(a, r); for (size_t i = 1; i < r.log.size(); i++) off[comp(r.log[i].x)]++; for (auto& o : off) par[o.first] = 1; REQUIRE(int(par.size()) <= mu, "parents", par.size()); if (int(par.size()) < mu) FAIL("choice", "one of " << mu << " parents never chosen in " << la << " times"); }
  for (auto& o : off) REQUIRE(par.count(o.first), "parent", "an offspring comes from no parent"); for (auto& q : par) { double pr = double(q.second) / mu, sd = std::sqrt(la * pr * (1 - pr)); REQUIRE(std::fabs(off[q.first] - la * pr) <= 7 * sd + 2, "choice", "a parent chosen " << off[q.first] << " times in " << la << " with probability " << pr); }
}
PBT(genetic, 1500, 20000) { // children recombine tournament winners of the last generation, then mutate
  int n = g.irange(10, 40), mu = g.irange(3, 12); if (g.chance(1, 30)) { n = g.irange(20, 300); mu = g.irange(13, 80); } int ts = g.irange(2, mu - 1), T = g.irange(1, 8), mode = g.below(3); double cp = mode == 0 ? 0 : 1, p = mode == 2 ? 1 : 0; if (mode == 2) cp = g.flag(); auto f = injective(g, n); seed(g); Recorder r(f, n); hnco::algorithm::GeneticAlgorithm a(n, mu); a.set_tournament_size(ts); a.set_crossover_probability(cp); a.set_mutation_rate(p); a.set_allow_no_mutation(true); a.set_num_iterations(T); g.note() << "n=" << n << " mu=" << mu << " tournament " << ts << " T=" << T << " crossover " << cp << " rate " << p; g.nontrivial(mu > 3); go(a, r); REQUIRE(int(r.log.size()) == mu * (T + 1), "count", r.log.size());
  for (int t = 1; t <= T; t++) { std::vector<std::pair<double, BV>> par; for (int i = 0; i < mu; i++) par.push_back({r.log[(t - 1) * mu + i].v, r.log[(t - 1) * mu + i].x}); std::sort(par.begin(), par.end(), [](auto& x, auto& y) { return x.first > y.first; }); int win = mu - ts + 1; // the ts - 1 worst never win
    for (int i = 0; i < mu; i++) { BV y = r.log[t * mu + i].x; if (p == 1) y = comp(y); if (cp == 0) { bool ok = false; for (int j = 0; j < win; j++) ok = ok || par[j].second == y; REQUIRE(ok, "parent", "generation " << t << ": a child copies none of the possible tournament winners"); } else { bool ok = false; for (int j = 0; j < win && !ok; j++) for (int k = j; k < win && !ok; k++) { bool all = true; for (int b = 0; b < n; b++) if (y[b] != par[j].second[b] && y[b] != par[k].second[b]) { all = false; break; } ok = all; } REQUIRE(ok, "crossover", "generation " << t << ": a child mixes no two possible tournament winners"); } } }
}
PBT(genetic_rates, 150, 1500) { // how many children are crossed, how bits are taken, how many are flipped
  int n = 60, mu = g.irange(100, 200); auto f = injective(g, n); seed(g); Recorder r(f, n); hnco::algorithm::GeneticAlgorithm a(n, mu); int what = g.below(2); a.set_num_iterations(1); a.set_allow_no_mutation(true); g.nontrivial(true); Mart m;
  if (what == 0) { double cp = g.pick(VD{0, 1, 0.5, g.unit()}); bool dflt = cp == 0.5 && g.flag(); if (!dflt) a.set_crossover_probability(cp); a.set_tournament_size(2); a.set_mutation_rate(0); g.note() << "crossover " << cp; go(a, r); std::set<BV> par; for (int i = 0; i < mu; i++) par.insert(r.log[i].x); double copies = 0; for (int i = mu; i < 2 * mu; i++) copies += par.count(r.log[i].x); double sd = std::sqrt(mu * cp * (1 - cp)); REQUIRE(copies >= mu * (1 - cp) - 7 * sd - 1 && copies <= mu * (1 - cp) + 7 * sd + 8, "crossover-rate", copies << " copies of " << mu << " with crossover probability " << cp); }
  else { double p = g.pick(VD{1.0 / n, g.unit() * 0.15}); bool dflt = p == 1.0 / n && g.flag(); a.set_crossover_probability(0); a.set_tournament_size(mu - 1); if (!dflt) a.set_mutation_rate(p); g.note() << "rate " << p; go(a, r); int b = 0; for (int i = 1; i < mu; i++) if (r.log[i].v > r.log[b].v) b = i; int b2 = b == 0; for (int i = 0; i < mu; i++) if (i != b && r.log[i].v > r.log[b2].v) b2 = i; for (int i = mu; i < 2 * mu; i++) flips(m, 0, dist(r.log[b].x, r.log[i].x) <= dist(r.log[b2].x, r.log[i].x) ? r.log[b].x : r.log[b2].x, r.log[i].x, p, true); m.check("flips"); }
}
