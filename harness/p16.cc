// P16: search effort matches the requested number of iterations.
#include "algorithms.hh"
#include "objectives.hh"
using namespace alg; using obj::gen_obj; using obj::Obj;
static int pick_n(Gen& g, int k) { int n = k == A_COMPLETE ? g.irange(1, 9) : g.small(1, 24); if (g.chance(1, 20) && k != A_COMPLETE) n = g.irange(30, 80); if (g.chance(1, 80) && k != A_COMPLETE) n = g.irange(100, 300); while (!fits(k, n)) n++; return n; }
static bool set_T(Algorithm *a, int t) {
  if (auto i = dynamic_cast<IterativeAlgorithm *>(a)) { i->set_num_iterations(t); return true; }
  if (auto i = dynamic_cast<OnePlusOneEa *>(a)) { i->set_num_iterations(t); return true; }
  return false;
}
static double choose(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::round(r); }
// Number of evaluations of one complete run, from the values it observed
static void check_run(const Spec& s, int T, const Recorder& r, size_t from, size_t to) {
  long cnt = long(to - from);
  auto v = [&](long i) { return r.log[from + i].v; };
  switch (s.kind) {
  case A_RLS: {
    long it = 0, fails = 0; REQUIRE(cnt >= 1, "count", s.name); double cur = v(0); bool stop = false;
    for (; it + 1 < cnt; it++) { REQUIRE(!stop, "patience", s.name << ": evaluations after " << s.patience << " consecutive failures"); double x = v(it + 1); if (s.strict ? x > cur : x >= cur) { cur = x; fails = 0; } else fails++; if (s.patience > 0 && fails == s.patience) stop = true; }
    REQUIRE(it <= T && (it == T || stop), "count", s.name << " T=" << T << " performed " << it << " iterations" << (stop ? ", stopped by patience" : "")); break; }
  case A_SAHC: {
    long N = long(choose(s.n, s.radius)); REQUIRE(cnt >= 1 && (cnt - 1) % N == 0, "count", s.name << ": " << cnt - 1 << " evaluations, neighbourhood of " << N); double cur = v(0); long it = (cnt - 1) / N; bool stop = false;
    for (long b = 0; b < it; b++) { REQUIRE(!stop, "count", s.name << " continued at a local optimum"); double m = v(1 + b * N); for (long i = 0; i < N; i++) m = std::max(m, v(1 + b * N + i)); if (m > cur) cur = m; else stop = true; }
    REQUIRE(it <= T && (it == T || stop), "count", s.name << " T=" << T << " performed " << it << " iterations"); break; }
  case A_FAHC: {
    long N = long(choose(s.n, s.radius)), it = 0, scan = 0; REQUIRE(cnt >= 1, "count", s.name); double cur = v(0); bool stop = false;
    for (long i = 1; i < cnt; i++) { REQUIRE(!stop && it < T, "count", s.name << " T=" << T << " continued after its last iteration"); if (v(i) > cur) { cur = v(i); it++; scan = 0; } else if (++scan == N) { it++; stop = true; } }
    REQUIRE(it == T || stop, "count", s.name << " T=" << T << " stopped after " << it << " iterations"); break; }
  case A_COMPLETE: REQUIRE(cnt == 1L << s.n, "count", s.name << " " << cnt); break;
  case A_ITEA: if (s.iter == 0) { REQUIRE(cnt >= s.init + long(s.lambda) * T && cnt <= s.init + long(s.lambda + 1) * T, "count", s.name << " " << cnt); break; }
  // fall through
  default: REQUIRE(cnt == s.init + s.iter * long(T), "count", s.name << " T=" << T << " spent " << cnt << " evaluations instead of " << s.init + s.iter * long(T));
  }
}
static void check_incremental(const Spec& s, const Recorder& r) {
  bool want = s.incremental && r.incr; if (s.kind != A_RLS && s.kind != A_WALK && s.kind != A_1P1 && s.kind != A_SELF) want = false;
  for (size_t i = 0; i < r.log.size(); i++) REQUIRE(r.log[i].inc == (want && i > 0), "incremental-use", s.name << ", function " << (r.incr ? "provides" : "does not provide") << " incremental evaluation, evaluation " << i << (r.log[i].inc ? " is" : " is not") << " incremental");
}
PBT(counts, 4000, 60000) {
  int k = int(g.below(A_NATIVE)), n = pick_n(g, k), T = n < 70 && g.chance(1, 100) ? g.irange(100, 500) : g.small(1, 30); Spec s = make_spec(g, k, n, T); Obj o = gen_obj(g, n); Recorder r(o.f, n, g.flag()); r.same = [](double, double) { return true; }; seed(g); g.note() << s.name << " on " << o.name; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(n > 1);
  Inst i = s.make(); std::vector<Function *> fs{&r}; i.a->maximize(fs); size_t c = r.log.size(); i.a->finalize(); solution_t sol = i.a->get_solution(); REQUIRE(r.log.size() == c, "hidden", s.name << ": " << r.log.size() - c << " evaluations in finalize or get_solution");
  check_run(s, T, r, 0, c); check_incremental(s, r);
}
PBT(reconfigured, 2500, 30000) { // iteration counts changed between runs of one object
  int k; do k = int(g.below(A_NATIVE)); while (k == A_COMPLETE); int n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 20)); seed(g); g.note() << s.name; g.nontrivial(true); Inst i = s.make(); int runs = g.irange(2, 4);
  for (int t = 0; t < runs; t++) { int T = g.small(1, 25); if (t == 0 && g.flag()) T = s.T; else REQUIRE(set_T(i.a.get(), T), "setter", s.name); g.note() << " T=" << T; Obj o = gen_obj(g, n); bool cut = g.chance(1, 5); Recorder r(o.f, n, g.flag(), cut ? s.init + g.small(0, 20) : -1); r.same = [](double, double) { return true; }; bool done = run(i, r); if (done) check_run(s, T, r, 0, r.log.size()); else REQUIRE(cut, "interrupted", s.name); }
}
PBT(restarts, 1500, 15000) {
  int k; do k = int(g.below(A_NATIVE)); while (k == A_SAHC || k == A_FAHC || (k == A_RLS)); int n = pick_n(g, k), T = g.small(1, 8), runs = g.irange(1, 5); Spec s = make_spec(g, k, n, T); if (s.iter == 0 && k != A_COMPLETE) throw pbt::Discard{}; Obj o = gen_obj(g, n); Recorder r(o.f, n); seed(g); g.note() << "restart x" << runs << " " << s.name; g.nontrivial(runs > 1);
  Inst i = s.make(); Restart rs(i.a.get()); rs.set_num_iterations(g.irange(1, 6)); std::vector<Function *> fs{&r}; if (g.flag()) { rs.set_num_iterations(1); Obj o2 = gen_obj(g, n); r.f = o2.f; rs.maximize(fs); r.log.clear(); r.f = o.f; } rs.set_num_iterations(runs); rs.maximize(fs); rs.finalize(); { auto sol = rs.get_solution(); REQUIRE(o.f(sol.first) == sol.second, "solution", s.name << " restarted reports " << sol.second << " for a point of value " << o.f(sol.first)); if (s.kind != A_LL) REQUIRE(sol.second == r.best(), "best", s.name << " restarted " << runs << " times reports " << sol.second << ", best " << r.best()); }
  long per = k == A_COMPLETE ? s.init : s.init + s.iter * long(T); REQUIRE(long(r.log.size()) == per * runs, "count", s.name << " restarted " << runs << " times spent " << r.log.size() << " evaluations instead of " << runs << " x " << per);
  for (int t = 0; t < runs; t++) check_run(s, T, r, t * per, (t + 1) * per);
}
PBT(indefinite, 600, 6000) { // no iteration limit: runs until the budget stops it
  int k; do k = int(g.below(A_NATIVE)); while (k == A_COMPLETE || k == A_SAHC || k == A_FAHC); int n = pick_n(g, k); Spec s = make_spec(g, k, n, -int(g.below(3))); if (s.patience) throw pbt::Discard{}; long budget = s.init + g.small(0, 300); Obj o = gen_obj(g, n); Recorder r(o.f, n, false, budget); seed(g); g.note() << s.name << " budget " << budget; g.nontrivial(budget > 2); Inst i = s.make(); bool done = run(i, r); REQUIRE(!done && long(r.log.size()) == budget, "indefinite", s.name << " with no limit stopped after " << r.log.size() << " of " << budget);
}
// Mutation rates changed between runs: with rate 1 every bit flips, with rate 0 none does.
PBT(mutation_rate_setter, 1500, 15000) {
  int n = g.irange(2, 30), mu = g.irange(1, 5), lambda = g.irange(mu, 8), what = g.below(4), runs = g.irange(2, 4); seed(g); g.nontrivial(true); uint64_t salt = g.seed32(); auto f = [salt](const BV& x) { return double(obj::hash(x, salt) % 1000); };
  std::shared_ptr<Algorithm> a; std::function<void(double, bool)> set; g.note() << "kind " << what << " n=" << n << " mu " << mu << " lambda " << lambda;
  if (what == 0) { auto b = std::make_shared<OnePlusOneEa>(n); b->set_num_iterations(5); set = [b](double p, bool m) { b->set_mutation_rate(p); b->set_allow_no_mutation(m); }; a = b; }
  else if (what == 1) { auto b = std::make_shared<MuPlusLambdaEa>(n, mu, lambda); b->set_num_iterations(1); set = [b](double p, bool m) { b->set_mutation_rate(p); b->set_allow_no_mutation(m); }; a = b; }
  else if (what == 2) { mu = g.irange(3, 8); auto b = std::make_shared<GeneticAlgorithm>(n, mu); b->set_num_iterations(1); b->set_tournament_size(2); b->set_crossover_probability(0); set = [b](double p, bool m) { b->set_mutation_rate(p); b->set_allow_no_mutation(m); }; a = b; }
  else { auto b = std::make_shared<MuCommaLambdaEa>(n, mu, lambda); b->set_num_iterations(2); set = [b](double p, bool m) { b->set_mutation_rate(p); b->set_allow_no_mutation(m); }; a = b; }
  for (int t = 0; t < runs; t++) {
    int mode = g.below(3); double p = mode == 0 ? 1 : mode == 1 ? 0 : 0.3; bool anm = mode == 1 ? true : g.flag(); set(p, anm); g.note() << " p=" << p; Recorder r(f, n); std::vector<Function *> fs{&r}; a->maximize(fs); a->finalize();
    auto flip = [](BV x) { for (auto& b : x) b ^= 1; return x; };
    if (mode == 2) { if (!anm && what == 0) { BV cur = r.log[0].x; double v = r.log[0].v; for (size_t i = 1; i < r.log.size(); i++) { REQUIRE(r.log[i].x != cur, "no-mutation", "candidate equals the current point although no mutation is forbidden"); if (r.log[i].v >= v) { cur = r.log[i].x; v = r.log[i].v; } } } continue; }
    if (what == 0) { BV cur = r.log[0].x; double v = r.log[0].v; for (size_t i = 1; i < r.log.size(); i++) { REQUIRE(r.log[i].x == (mode == 0 ? flip(cur) : cur), "rate", "(1+1) EA run " << t << " with mutation rate " << p << " evaluated " << pbt::show(r.log[i].x) << " from " << pbt::show(cur)); if (r.log[i].v >= v) { cur = r.log[i].x; v = r.log[i].v; } } }
    else { size_t first = what == 3 ? 1 : mu, last = r.log.size(); size_t par0 = 0, par1 = mu; if (what == 3) { first = 1 + lambda; par0 = 1; par1 = 1 + lambda; }
      for (size_t i = first; i < last; i++) { bool ok = false; for (size_t j = par0; j < par1; j++) if (r.log[i].x == (mode == 0 ? flip(r.log[j].x) : r.log[j].x)) ok = true; REQUIRE(ok, "rate", "kind " << what << " run " << t << " with mutation rate " << p << ": offspring " << pbt::show(r.log[i].x) << " comes from no parent"); } }
  }
}
// Logged iterations
struct Capture { std::ostringstream o; std::streambuf *old; Capture(): old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
PBT(log_lines, 800, 8000) {
  int n = g.irange(2, 20), T = g.small(1, 30), pop = g.irange(2, 10), sel = g.irange(1, pop - 1), what = g.below(7); seed(g); Obj o = gen_obj(g, n); Recorder r(o.f, n); std::shared_ptr<Algorithm> a; g.note() << "kind " << what << " T=" << T; g.nontrivial(T > 1);
  switch (what) {
  case 0: { auto b = std::make_shared<SelfAdjustingOnePlusOneEa>(n); b->set_log_mutation_rate(true); b->set_num_iterations(T); a = b; break; }
  case 1: { auto b = std::make_shared<TwoRateOnePlusLambdaEa>(n, pop); b->set_log_mutation_rate(true); b->set_num_iterations(T); a = b; break; }
  case 2: { auto b = std::make_shared<InformationTheoreticEa>(n, pop); b->set_selection_size(sel); b->set_log_mutation_rate(true); b->set_num_iterations(T); a = b; break; }
  case 3: { auto b = std::make_shared<Umda>(n, pop); b->set_selection_size(sel); b->set_log_entropy(true); b->set_num_iterations(T); a = b; break; }
  case 4: { auto b = std::make_shared<Pbil>(n, pop); b->set_selection_size(sel); b->set_log_entropy(true); b->set_num_iterations(T); a = b; break; }
  case 5: { auto b = std::make_shared<Mmas>(n); b->set_log_entropy(true); b->set_num_iterations(T); a = b; break; }
  default: { auto b = std::make_shared<CompactGa>(n); b->set_log_entropy(true); b->set_num_iterations(T); a = b; break; }
  }
  std::string txt; { Capture c; std::vector<Function *> fs{&r}; a->maximize(fs); txt = c.o.str(); }
  long lines = std::count(txt.begin(), txt.end(), '\n'); REQUIRE(lines == T, "log-lines", "kind " << what << ": " << lines << " log lines for " << T << " iterations");
}
// One object with two sets of parameters, against an object which always had the second one.
struct Two { std::function<Inst()> make; std::function<std::function<void(Inst&)>(Gen&)> conf; bool full = true; long init = 1; std::string name; bool ties = false; };
template<class A, class F> static std::function<std::function<void(Inst&)>(Gen&)> conf_of(F f) { return [f](Gen& g) { std::function<void(A&)> h = f(g); int T = g.irange(1, 6); return std::function<void(Inst&)>([h, T](Inst& i) { A& a = dynamic_cast<A&>(*i.a); a.set_num_iterations(T); h(a); }); }; }
static Two gen_two(Gen& g, int n) {
  Two w; auto rate = [n](Gen& g) { return g.pick(std::vector<double>{1.0 / n, 0.5, 1, 0.05, g.real(0.02, 1)}); }; auto gt = [](double x, double y) { return x > y; }; auto ge = [](double x, double y) { return x >= y; };
  int mu = g.irange(1, 6), lambda = g.irange(mu, 10), pop = g.irange(3, 12); HoodSpec h = gen_hood(g, n);
#define CONF(C, ...) conf_of<C>([=](Gen& g) -> std::function<void(C&)> { (void)rate; (void)gt; (void)ge; __VA_ARGS__ })
#define MAKE(C, ...) [=]() { return Inst{nullptr, std::make_shared<C>(__VA_ARGS__)}; }
  switch (g.below(19)) {
  case 0: w.name = "rls"; w.ties = true; w.make = [=]() { auto q = make_hood(h, n); return Inst{q, std::make_shared<RandomLocalSearch>(n, q.get())}; }; w.conf = CONF(RandomLocalSearch, int p = g.irange(1, 8); bool s = g.flag(), rs = g.flag(); BV st = g.bits(n); return [=](RandomLocalSearch& a) { a.set_patience(p); if (s) a.set_compare(gt); else a.set_compare(ge); a.set_random_initialization(rs); a.set_starting_point(st); };); break;
  case 1: w.name = "walk"; w.ties = true; w.make = [=]() { auto q = make_hood(h, n); return Inst{q, std::make_shared<RandomWalk>(n, q.get())}; }; w.conf = CONF(RandomWalk, bool rs = g.flag(); BV st = g.bits(n); return [=](RandomWalk& a) { a.set_random_initialization(rs); a.set_starting_point(st); };); break;
  case 2: w.name = "sa"; w.ties = true; w.make = [=]() { auto q = make_hood(h, n); return Inst{q, std::make_shared<SimulatedAnnealing>(n, q.get())}; }; w.conf = CONF(SimulatedAnnealing, int t = g.irange(1, 8); int nt = g.irange(1, 5); double p = g.real(0.1, 0.9); double b = g.real(1, 3); bool rs = g.flag(); BV st = g.bits(n); return [=](SimulatedAnnealing& a) { a.set_num_trials(t); a.set_num_transitions(nt); a.set_initial_acceptance_probability(p); a.set_beta_ratio(b); a.set_random_initialization(rs); a.set_starting_point(st); };); break;
  case 3: w.name = "(1+1)ea"; w.ties = true; w.make = MAKE(OnePlusOneEa, n); w.conf = CONF(OnePlusOneEa, double p = rate(g); bool m = g.flag(); return [=](OnePlusOneEa& a) { a.set_mutation_rate(p); a.set_allow_no_mutation(m); };); break;
  case 4: w.name = "self-adjusting"; w.ties = true; w.make = MAKE(SelfAdjustingOnePlusOneEa, n); w.conf = CONF(SelfAdjustingOnePlusOneEa, double lo = g.real(0.01, 0.2); double hi = g.real(0.3, 1); double in = g.real(lo, hi); double us = g.real(1.1, 3); double sr = g.real(0.5, 5); bool m = g.flag(); return [=](SelfAdjustingOnePlusOneEa& a) { a.set_mutation_rate_init(in); a.set_mutation_rate_min(lo); a.set_mutation_rate_max(hi); a.set_update_strength(us); a.set_success_ratio(sr); a.set_allow_no_mutation(m); };); break;
  case 5: w.name = "(mu,lambda)"; w.full = false; w.make = MAKE(MuCommaLambdaEa, n, mu, lambda); w.conf = CONF(MuCommaLambdaEa, double p = rate(g); bool m = g.flag(); return [=](MuCommaLambdaEa& a) { a.set_mutation_rate(p); a.set_allow_no_mutation(m); };); break;
  case 6: w.name = "(mu+lambda)"; w.full = false; w.init = mu; w.make = MAKE(MuPlusLambdaEa, n, mu, lambda); w.conf = CONF(MuPlusLambdaEa, double p = rate(g); bool m = g.flag(); return [=](MuPlusLambdaEa& a) { a.set_mutation_rate(p); a.set_allow_no_mutation(m); };); break;
  case 7: w.name = "ga"; w.full = false; w.init = pop; w.make = MAKE(GeneticAlgorithm, n, pop); w.conf = CONF(GeneticAlgorithm, double p = rate(g); bool m = g.flag(); double c = g.pick(std::vector<double>{0, 1, 0.5, g.unit()}); int ts = g.irange(2, pop - 1); return [=](GeneticAlgorithm& a) { a.set_mutation_rate(p); a.set_allow_no_mutation(m); a.set_crossover_probability(c); a.set_tournament_size(ts); };); break;
  case 8: w.name = "it-ea"; w.make = MAKE(InformationTheoreticEa, n, pop); w.conf = CONF(InformationTheoreticEa, int sel = g.irange(1, pop - 1); int rep = g.below(5); int hw = g.irange(0, n); double lr = g.unit(); double lo = g.real(0.01, 0.2); double hi = g.real(0.3, 1); double in = g.real(lo, hi); bool m = g.flag(); return [=](InformationTheoreticEa& a) { a.set_selection_size(sel); a.set_replacement(rep); a.set_initial_hamming_weight(hw); a.set_learning_rate(lr); a.set_mutation_rate_min(lo); a.set_mutation_rate_max(hi); a.set_mutation_rate_init(in); a.set_allow_no_mutation(m); };); break;
  case 9: w.name = "(1+(l,l))"; lambda = g.irange(2, std::min(n, 6)); w.make = MAKE(OnePlusLambdaCommaLambdaGa, n, lambda); w.conf = CONF(OnePlusLambdaCommaLambdaGa, double p = g.unit(); double b = g.real(0.05, 0.95); return [=](OnePlusLambdaCommaLambdaGa& a) { a.set_mutation_rate(p); a.set_crossover_bias(b); };); break;
  case 10: w.name = "two-rate"; w.full = false; w.make = MAKE(TwoRateOnePlusLambdaEa, n, pop); w.conf = CONF(TwoRateOnePlusLambdaEa, double in = g.real(0.1, 0.4); bool m = g.flag(); return [=](TwoRateOnePlusLambdaEa& a) { a.set_mutation_rate_init(in); a.set_allow_no_mutation(m); };); break;
  case 11: w.name = "mmas"; w.ties = true; w.make = MAKE(Mmas, n); w.conf = CONF(Mmas, double lr = g.unit(); bool s = g.flag(); return [=](Mmas& a) { a.set_learning_rate(lr); if (s) a.set_compare(gt); else a.set_compare(ge); };); break;
  case 12: w.name = "cga"; w.ties = true; w.make = MAKE(CompactGa, n); w.conf = CONF(CompactGa, double lr = g.unit(); return [=](CompactGa& a) { a.set_learning_rate(lr); };); break;
  case 13: w.name = "pbil"; w.make = MAKE(Pbil, n, pop); w.conf = CONF(Pbil, double lr = g.unit(); int sel = g.irange(1, pop - 1); return [=](Pbil& a) { a.set_learning_rate(lr); a.set_selection_size(sel); };); break;
  case 14: w.name = "nps-pbil"; w.make = MAKE(NpsPbil, n, pop); w.conf = CONF(NpsPbil, double lr = g.unit(); int sel = g.irange(1, pop / 2); return [=](NpsPbil& a) { a.set_learning_rate(lr); a.set_selection_size(sel); };); break;
  case 15: w.name = "umda"; w.make = MAKE(Umda, n, pop); w.conf = CONF(Umda, int sel = g.irange(1, pop - 1); return [=](Umda& a) { a.set_selection_size(sel); };); break;
  case 16: w.name = "mimic"; w.make = MAKE(Mimic, n, pop); w.conf = CONF(Mimic, int sel = g.irange(1, pop - 1); return [=](Mimic& a) { a.set_selection_size(sel); };); break;
  case 17: { typedef wm::Hea<wm::TriangularMomentHerding> H; w.name = "hea"; w.make = MAKE(H, n, pop); w.conf = CONF(H, int sel = g.irange(1, pop - 1); double lr = g.unit(); bool bm = g.flag(); bool ro = g.flag(); int rp = g.irange(0, 3); return [=](H& a) { a.set_selection_size(sel); a.set_learning_rate(lr); a.set_bound_moment(bm); a.set_randomize_bit_order(ro); a.set_reset_period(rp); };); break; }
  default: { typedef wm::BmPbil<wm::FullMomentGibbsSampler> B; w.name = "bm-pbil"; w.make = MAKE(B, n, pop); w.conf = CONF(B, int sel = g.irange(1, pop / 2); double lr = g.unit(); int st = g.irange(1, 20); int cy = g.irange(1, 3); bool np = g.flag(); int sm = g.below(3); int rm = g.below(3); return [=](B& a) { a.set_selection_size(sel); a.set_learning_rate(lr); a.set_num_gs_steps(st); a.set_num_gs_cycles(cy); a.set_negative_positive_selection(np); a.set_sampling_mode(sm); a.set_reset_mode(rm); };); break; }
  }
  return w;
#undef CONF
#undef MAKE
}
PBT(setters, 3000, 40000) { // parameters set after a run are those of the next one
  int n = g.irange(3, 24); Two w = gen_two(g, n); auto c1 = w.conf(g), c2 = w.conf(g); unsigned s1 = g.seed32(), s2 = g.seed32(); uint64_t salt = g.seed32(); bool same1 = !w.full || g.flag(); std::function<double(const BV&)> f = [salt](const BV& x) { return double(obj::hash(x, salt) >> 11); }; if (w.ties && g.flag()) f = [salt](const BV& x) { return double(obj::hash(x, salt) % 3); };
  long cut = w.full ? (g.flag() ? -1 : g.small(0, 20)) : g.irange(0, w.init - 1); g.note() << w.name << " n=" << n << " first run " << (cut < 0 ? std::string("complete") : "cut after " + std::to_string(cut)); g.label(w.name); g.nontrivial(true);
  auto go = [&](Inst& i, unsigned sd, long budget) { hnco::random::Generator::set_seed(sd); Recorder r(f, n, false, budget); std::vector<Function *> fs{&r}; try { i.a->maximize(fs); } catch (const hnco::exception::LastEvaluation&) {} return r.log; };
  Inst a = w.make(), b = w.make(); c1(a); go(a, s1, cut); c2(a); c2(b); if (same1) go(b, s1, cut); auto x = go(a, s2, -1), y = go(b, s2, -1); REQUIRE(x.size() == y.size(), "setter-count", w.name << ": " << x.size() << " evaluations with parameters changed after a run, " << y.size() << " with an object which had them from the start"); for (size_t t = 0; t < x.size(); t++) REQUIRE(x[t].x == y[t].x, "setter", w.name << ": evaluation " << t << " is " << pbt::show(x[t].x) << " with parameters changed after a run, " << pbt::show(y[t].x) << " with an object which had them from the start");
}
