// Catalogue of search algorithms with what their parameters imply about a run.
#ifndef VERIF_ALGORITHMS_HH
#define VERIF_ALGORITHMS_HH
#include "common.hh"
#include "hnco/exception.hh"
#include "hnco/functions/function.hh"
#include "hnco/algorithms/complete-search.hh"
#include "hnco/algorithms/random-search.hh"
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/decorators/restart.hh"
#include "hnco/algorithms/evolutionary-algorithms/genetic-algorithm.hh"
#include "hnco/algorithms/evolutionary-algorithms/it-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/mu-comma-lambda-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.hh"
#include "hnco/algorithms/evolutionary-algorithms/one-plus-one-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/self-adjusting-one-plus-one-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh"
#include "hnco/algorithms/local-search/first-ascent-hill-climbing.hh"
#include "hnco/algorithms/local-search/steepest-ascent-hill-climbing.hh"
#include "hnco/algorithms/local-search/random-local-search.hh"
#include "hnco/algorithms/local-search/random-walk.hh"
#include "hnco/algorithms/local-search/simulated-annealing.hh"
#include "hnco/algorithms/probability-vector/compact-ga.hh"
#include "hnco/algorithms/probability-vector/mmas.hh"
#include "hnco/algorithms/probability-vector/nps-pbil.hh"
#include "hnco/algorithms/probability-vector/pbil.hh"
#include "hnco/algorithms/probability-vector/umda.hh"
#include "hnco/algorithms/probability-vector/ram-umda.hh"
#include "hnco/algorithms/walsh-moment/hea.hh"
#include "hnco/algorithms/walsh-moment/herding.hh"
#include "hnco/algorithms/walsh-moment/bm-pbil.hh"
#include "hnco/algorithms/walsh-moment/gibbs-sampler.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#ifdef VERIF_THIRD_PARTY
#include "hnco/algorithms/fast-efficient-p3/hboa.hh"
#include "hnco/algorithms/fast-efficient-p3/ltga.hh"
#include "hnco/algorithms/fast-efficient-p3/p3.hh"
#include "hnco/algorithms/gomea/gomea.hh"
#endif
namespace alg {
using namespace hnco::algorithm; namespace nb = hnco::neighborhood; namespace wm = hnco::algorithm::walsh_moment;
typedef hnco::function::Function Function;
struct Inst { std::shared_ptr<void> keep; std::shared_ptr<Algorithm> a; };
enum { A_COMPLETE, A_RANDOM, A_RLS, A_WALK, A_SA, A_FAHC, A_SAHC, A_1P1, A_SELF, A_MUC, A_MUP, A_GA, A_ITEA, A_LL, A_TWO, A_MMAS, A_CGA, A_PBIL, A_NPS, A_UMDA, A_RAM, A_RAM2, A_MIMIC, A_HEA, A_BM, A_NATIVE, A_HBOA = A_NATIVE, A_LTGA, A_P3, A_GOMEA, A_COUNT };
struct Spec {
  int kind = 0; std::string name; int n = 0;
  std::function<Inst()> make;      // a new object with the generated parameters
  long init = 0, iter = 0;         // evaluations of the initialisation and of each iteration; iter 0: depends on the run
  bool parallel = false, incremental = false, budget_only = false, single_precision = false;
  int T = 0;                       // number of iterations, 0: until the budget is spent (or the algorithm stops by itself)
  int patience = 0; bool strict = false; int hood = 0; double radius = 0; int lambda = 0, mu = 0, sel = 0; double rate = 0; BV start; // details for trajectory checks
  bool random_start = true;
};
inline bool is_parallel(int k) { return k == A_MUC || k == A_MUP || k == A_GA || k == A_ITEA || k == A_TWO || (k >= A_PBIL && k <= A_BM); }
enum { H_FLIP, H_SBM, H_BALL, H_SPHERE };
struct HoodSpec { int kind; int r; double p; std::string name; bool anm = false; };
inline HoodSpec gen_hood(Gen& g, int n) { HoodSpec h; h.kind = g.below(4); h.r = g.irange(1, std::min(n, 3)); h.p = g.pick(std::vector<double>{1.0 / n, 0.5, 0.1, 1.0 / n}); h.anm = g.flag(); static const char *nm[] = {"single-bit-flip", "sbm", "ball", "sphere"}; h.name = nm[h.kind]; if (h.kind >= H_BALL) h.name += std::to_string(h.r); return h; }
inline std::shared_ptr<nb::Neighborhood> make_hood(const HoodSpec& h, int n) {
  switch (h.kind) {
  case H_FLIP: return std::make_shared<nb::SingleBitFlip>(n);
  case H_SBM: { auto s = std::make_shared<nb::StandardBitMutation>(n, h.p); s->set_allow_no_mutation(h.anm); return s; }
  case H_BALL: return std::make_shared<nb::HammingBall>(n, h.r);
  default: return std::make_shared<nb::HammingSphere>(n, h.r);
  }
}
inline std::shared_ptr<nb::NeighborhoodIterator> make_iter(int r, int n) { if (r == 0) return std::make_shared<nb::SingleBitFlipIterator>(n); return std::make_shared<nb::HammingSphereIterator>(n, r); }
template<class A, class S> inline std::function<Inst()> maker(S set) { return [set]() { Inst i; auto a = set(i); i.a = a; return i; }; }

inline bool fits(int k, int n) {
  switch (k) {
  case A_COMPLETE: return n <= 9;
  case A_ITEA: case A_RAM: case A_RAM2: case A_MIMIC: case A_HEA: case A_BM: case A_LL: return n >= 2;
  case A_HBOA: case A_LTGA: case A_P3: case A_GOMEA: return n >= 1;
  default: return n >= 1;
  }
}
// T: number of iterations, 0 meaning indefinite
inline Spec make_spec(Gen& g, int k, int n, int T) {
  Spec s; s.kind = k; s.n = n; s.T = T; s.init = 1; std::ostringstream d; d.precision(17); s.parallel = is_parallel(k);
  double rate = g.pick(std::vector<double>{1.0 / n, 1.0 / n, 0.5, 0.2, 1.0}); bool anm = g.flag();
  int mu = g.irange(1, 8), lambda = g.irange(mu, 12), pop = g.irange(2, 14), sel = g.irange(1, pop - 1); bool many = g.chance(1, 16); if (many) { mu = g.irange(9, 60); lambda = g.irange(mu, 120); pop = g.irange(15, 150); sel = g.irange(1, pop - 1); } double lr = g.pick(std::vector<double>{1e-3, 0.1, 0.5, 1.0});
  switch (k) {
  case A_COMPLETE: d << "complete"; s.init = 1L << n; s.make = [n]() { return Inst{nullptr, std::make_shared<CompleteSearch>(n)}; }; break;
  case A_RANDOM: d << "random-search"; s.iter = 1; s.make = [n, T]() { auto a = std::make_shared<RandomSearch>(n); a->set_num_iterations(T); return Inst{nullptr, a}; }; break;
  case A_RLS: { HoodSpec h = gen_hood(g, n); int pat = g.chance(1, 2) ? 0 : g.irange(1, 30); bool inc = g.flag(), strict = g.flag(), rs = !g.chance(1, 4); BV st = g.bits(n); d << "rls " << h.name << " patience " << pat << (inc ? " incremental" : "") << (strict ? " strict" : ""); s.iter = 1; s.patience = pat; s.strict = strict; s.incremental = inc; s.hood = h.kind; s.radius = h.r; s.start = st; s.random_start = rs;
    s.make = [=]() { auto hood = make_hood(h, n); auto a = std::make_shared<RandomLocalSearch>(n, hood.get()); a->set_num_iterations(T); a->set_patience(pat); a->set_incremental_evaluation(inc); if (strict) a->set_compare([](double x, double y) { return x > y; }); a->set_random_initialization(rs); a->set_starting_point(st); return Inst{hood, a}; }; break; }
  case A_WALK: { HoodSpec h = gen_hood(g, n); bool inc = g.flag(), rs = !g.chance(1, 4); BV st = g.bits(n); d << "random-walk " << h.name << (inc ? " incremental" : ""); s.iter = 1; s.incremental = inc; s.hood = h.kind; s.radius = h.r; s.start = st; s.random_start = rs;
    s.make = [=]() { auto hood = make_hood(h, n); auto a = std::make_shared<RandomWalk>(n, hood.get()); a->set_num_iterations(T); a->set_incremental_evaluation(inc); a->set_random_initialization(rs); a->set_starting_point(st); return Inst{hood, a}; }; break; }
  case A_SA: { HoodSpec h = gen_hood(g, n); int tr = g.irange(0, 12), nt = g.irange(1, 10); double p = g.real(0.05, 0.95), br = g.real(1, 3); bool rs = !g.chance(1, 4); BV st = g.bits(n); d << "sa " << h.name << " trials " << tr; s.init = 1 + 2 * tr; s.iter = 1; s.hood = h.kind; s.radius = h.r; s.lambda = tr; s.start = st; s.random_start = rs;
    s.make = [=]() { auto hood = make_hood(h, n); auto a = std::make_shared<SimulatedAnnealing>(n, hood.get()); a->set_num_iterations(T); a->set_num_trials(tr); a->set_num_transitions(nt); a->set_initial_acceptance_probability(p); a->set_beta_ratio(br); a->set_random_initialization(rs); a->set_starting_point(st); return Inst{hood, a}; }; break; }
  case A_FAHC: case A_SAHC: { int r = g.irange(0, std::min(n, n > 70 ? 1 : 3)); bool rs = !g.chance(1, 4); BV st = g.bits(n); d << (k == A_FAHC ? "first-ascent r" : "steepest-ascent r") << r; s.radius = std::max(1, r); s.start = st; s.random_start = rs;
    s.make = [=]() { auto it = make_iter(r, n); if (k == A_FAHC) { auto a = std::make_shared<FirstAscentHillClimbing>(n, it.get()); a->set_num_iterations(T); a->set_random_initialization(rs); a->set_starting_point(st); return Inst{it, a}; } auto a = std::make_shared<SteepestAscentHillClimbing>(n, it.get()); a->set_num_iterations(T); a->set_random_initialization(rs); a->set_starting_point(st); return Inst{it, a}; }; break; }
  case A_1P1: { bool inc = g.flag(); d << "(1+1)ea rate " << rate << (inc ? " incremental" : ""); s.iter = 1; s.incremental = inc; s.make = [=]() { auto a = std::make_shared<OnePlusOneEa>(n); a->set_num_iterations(T); a->set_mutation_rate(rate); a->set_allow_no_mutation(anm); a->set_incremental_evaluation(inc); return Inst{nullptr, a}; }; break; }
  case A_SELF: { bool inc = g.flag(); double us = g.real(1.01, 2), sr = g.real(0.5, 6); d << "self-adjusting(1+1)ea" << (inc ? " incremental" : ""); s.iter = 1; s.incremental = inc; s.make = [=]() { auto a = std::make_shared<SelfAdjustingOnePlusOneEa>(n); a->set_num_iterations(T); a->set_update_strength(us); a->set_success_ratio(sr); a->set_allow_no_mutation(anm); a->set_incremental_evaluation(inc); return Inst{nullptr, a}; }; break; }
  case A_MUC: d << "(" << mu << "," << lambda << ")ea rate " << rate; s.iter = lambda; s.mu = mu; s.lambda = lambda; s.make = [=]() { auto a = std::make_shared<MuCommaLambdaEa>(n, mu, lambda); a->set_num_iterations(T); a->set_mutation_rate(rate); a->set_allow_no_mutation(anm); return Inst{nullptr, a}; }; break;
  case A_MUP: lambda = g.irange(1, many ? 100 : 12); d << "(" << mu << "+" << lambda << ")ea rate " << rate; s.init = mu; s.iter = lambda; s.mu = mu; s.lambda = lambda; s.make = [=]() { auto a = std::make_shared<MuPlusLambdaEa>(n, mu, lambda); a->set_num_iterations(T); a->set_mutation_rate(rate); a->set_allow_no_mutation(anm); return Inst{nullptr, a}; }; break;
  case A_GA: { mu = many ? g.irange(11, 150) : g.irange(3, 10); int ts = g.irange(2, mu - 1); double cp = g.pick(std::vector<double>{0, 0.5, 1}); d << "ga mu " << mu << " tournament " << ts << " cp " << cp; s.init = s.iter = s.mu = mu; s.make = [=]() { auto a = std::make_shared<GeneticAlgorithm>(n, mu); a->set_num_iterations(T); a->set_mutation_rate(rate); a->set_tournament_size(ts); a->set_crossover_probability(cp); a->set_allow_no_mutation(anm); return Inst{nullptr, a}; }; break; }
  case A_ITEA: { int rep = g.below(5), hw = g.irange(0, n); double mi = g.real(1.0 / n, 0.5); d << "it-ea pop " << pop << " sel " << sel << " replacement " << rep; s.iter = rep == 3 ? 0 : pop + (rep == 2); s.sel = rep; s.lambda = pop; s.make = [=]() { auto a = std::make_shared<InformationTheoreticEa>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_mutation_rate_init(mi); a->set_replacement(rep); a->set_initial_hamming_weight(hw); a->set_allow_no_mutation(anm); return Inst{nullptr, a}; }; break; }
  case A_LL: { lambda = g.irange(1, std::min(n, many ? 40 : 8)); double b = g.real(0.05, 0.95), r = g.real(0, 1); bool dflt = lambda > 1 && g.flag(); d << "(1+(l,l))ga lambda " << lambda; s.iter = 2 * lambda; s.lambda = lambda; s.make = [=]() { auto a = std::make_shared<OnePlusLambdaCommaLambdaGa>(n, lambda); a->set_num_iterations(T); if (!dflt) { a->set_crossover_bias(b); a->set_mutation_rate(r); } return Inst{nullptr, a}; }; break; }
  case A_TWO: d << "two-rate pop " << pop; s.iter = pop; s.lambda = pop; s.make = [=]() { auto a = std::make_shared<TwoRateOnePlusLambdaEa>(n, pop); a->set_num_iterations(T); a->set_allow_no_mutation(anm); return Inst{nullptr, a}; }; break;
  case A_MMAS: { bool strict = g.flag(); d << "mmas lr " << lr << (strict ? " strict" : ""); s.iter = 1; s.strict = strict; s.rate = lr; s.make = [=]() { auto a = std::make_shared<Mmas>(n); a->set_num_iterations(T); if (strict) a->set_compare([](double x, double y) { return x > y; }); a->set_learning_rate(lr); return Inst{nullptr, a}; }; break; }
  case A_CGA: d << "cga lr " << lr; s.iter = 2; s.rate = lr; s.make = [=]() { auto a = std::make_shared<CompactGa>(n); a->set_num_iterations(T); a->set_learning_rate(lr); return Inst{nullptr, a}; }; break;
#define PVA(K, C, NAME) case K: d << NAME << " pop " << pop << " sel " << sel << " lr " << lr; s.iter = pop; s.lambda = pop; s.sel = sel; s.rate = lr; s.make = [=]() { auto a = std::make_shared<C>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); return Inst{nullptr, a}; }; break;
  PVA(A_PBIL, Pbil, "pbil") PVA(A_NPS, NpsPbil, "nps-pbil")
#undef PVA
  case A_UMDA: d << "umda pop " << pop << " sel " << sel; s.iter = pop; s.lambda = pop; s.sel = sel; s.make = [=]() { auto a = std::make_shared<Umda>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); return Inst{nullptr, a}; }; break;
  case A_RAM: case A_RAM2: { int mode = g.below(6), len = g.irange(0, 10), lo = g.irange(0, 4), hi = g.irange(10, 20), per = g.irange(1, 4); double gp = g.real(0.05, 0.9), cp = g.unit(), lp = g.unit(); d << (k == A_RAM ? "ram-umda" : "ram-umda2") << " pop " << pop << " sel " << sel << " mode " << mode; s.iter = pop; s.lambda = pop; s.sel = sel;
    s.make = [=]() { std::shared_ptr<RamUmda> a; if (k == A_RAM2) { auto b = std::make_shared<RamUmda2>(n, pop); b->set_crossover_probability(cp); b->set_latent_space_probability(lp); a = b; } else a = std::make_shared<RamUmda>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_ts_length_mode(mode); a->set_ts_length(len); a->set_ts_length_lower_bound(lo); a->set_ts_length_upper_bound(hi); a->set_ts_length_increment_period(per); a->set_ts_length_distribution_parameter(gp); return Inst{nullptr, a}; }; break; }
  case A_MIMIC: d << "mimic pop " << pop << " sel " << sel; s.iter = pop; s.lambda = pop; s.sel = sel; s.make = [=]() { auto a = std::make_shared<Mimic>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); return Inst{nullptr, a}; }; break;
  case A_HEA: { bool full = g.flag(), ro = g.flag(), bm = g.flag(); int rp = g.irange(0, 3); double hlr = g.pick(std::vector<double>{1e-4, 0.1, 1}); d << "hea " << (full ? "full" : "triangular") << " pop " << pop << " sel " << sel << " lr " << hlr; s.iter = pop; s.lambda = pop; s.sel = sel; s.rate = hlr;
#define HEAM(H) auto a = std::make_shared<wm::Hea<wm::H>>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(hlr); a->set_bound_moment(bm); a->set_reset_period(rp); a->set_randomize_bit_order(ro); return Inst{nullptr, a};
    s.make = [=]() -> Inst { if (full) { HEAM(FullMomentHerding) } else { HEAM(TriangularMomentHerding) } }; break; }
  case A_BM: { bool full = g.flag(), np = g.flag(); int sm = g.below(3), rm = g.below(3), st = g.irange(1, 30), cy = g.irange(1, 3); d << "bm-pbil " << (full ? "full" : "triangular") << " pop " << pop << " sel " << sel << " sampling " << sm << " reset " << rm; s.iter = pop; s.lambda = pop; s.sel = sel; s.rate = lr;
#define BMM(H) auto a = std::make_shared<wm::BmPbil<wm::H>>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_num_gs_steps(st); a->set_num_gs_cycles(cy); a->set_negative_positive_selection(np); a->set_sampling_mode(sm); a->set_reset_mode(rm); return Inst{nullptr, a};
    s.make = [=]() -> Inst { if (full) { BMM(FullMomentGibbsSampler) } else { BMM(TriangularMomentGibbsSampler) } }; break; }
#ifdef VERIF_THIRD_PARTY
  case A_HBOA: pop = g.irange(2, 20); d << "hboa pop " << pop; s.budget_only = s.single_precision = true; s.init = 0; s.make = [=]() { auto a = std::make_shared<hnco::algorithm::fast_efficient_p3::Hboa>(n); a->set_population_size(pop); return Inst{nullptr, a}; }; break;
  case A_LTGA: pop = g.irange(2, 20); d << "ltga pop " << pop; s.budget_only = s.single_precision = true; s.init = 0; s.make = [=]() { auto a = std::make_shared<hnco::algorithm::fast_efficient_p3::Ltga>(n); a->set_population_size(pop); return Inst{nullptr, a}; }; break;
  case A_P3: d << "p3"; s.budget_only = s.single_precision = true; s.init = 0; s.make = [=]() { return Inst{nullptr, std::make_shared<hnco::algorithm::fast_efficient_p3::ParameterLessPopulationPyramid>(n)}; }; break;
  case A_GOMEA: d << "gomea"; s.budget_only = true; s.init = 0; s.make = [=]() { return Inst{nullptr, std::make_shared<hnco::algorithm::gomea::Gomea>(n)}; }; break;
#endif
  default: throw pbt::Discard{};
  }
  d << " n=" << n << " T=" << T; s.name = d.str();
  return s;
}
#ifdef VERIF_THIRD_PARTY
const int LAST = A_COUNT;
#else
const int LAST = A_NATIVE;
#endif
inline int gen_kind(Gen& g, int n, std::function<bool(int)> ok = [](int) { return true; }) { std::vector<int> ks; for (int k = 0; k < LAST; k++) if (fits(k, n) && ok(k)) ks.push_back(k); return g.pick(ks); }

// Records every evaluation asked by an algorithm; throws LastEvaluation when the budget is spent.
struct Ev { BV x; double v; bool inc; };
class Recorder: public Function {
public:
  std::function<double(const BV&)> f; int n; bool incr; long budget; std::vector<Ev> log; bool bad_size = false, bad_inc = false; std::string what;
  std::function<bool(double, double)> same = [](double a, double b) { return a == b; };
  Recorder(std::function<double(const BV&)> f_, int n_, bool incr_ = false, long budget_ = -1): f(f_), n(n_), incr(incr_), budget(budget_) {}
  void check(const BV& x) { if (int(x.size()) != n || !valid(x)) { bad_size = true; what = pbt::show(x); } }
  double evaluate(const BV& x) override { check(x); if (budget >= 0 && long(log.size()) >= budget) throw hnco::exception::LastEvaluation(); double v = bad_size ? 0 : f(x); log.push_back({x, v, false}); return v; }
  double evaluate_incrementally(const BV& x, double v, const hnco::sparse_bit_vector_t& fl) override {
    check(x); if (budget >= 0 && long(log.size()) >= budget) throw hnco::exception::LastEvaluation(); if (bad_size) return 0;
    if (!same(v, f(x))) { bad_inc = true; std::ostringstream o; o.precision(17); o << "incremental evaluation from " << pbt::show(x) << " given value " << v << " instead of " << f(x); what = o.str(); }
    BV y = x; for (int i : fl) { if (i < 0 || i >= n) { bad_inc = true; what = "flipped bit out of range"; return 0; } y[i] ^= 1; } double r = f(y); log.push_back({y, r, true}); return r; }
  bool provides_incremental_evaluation() const override { return incr; }
  int get_bv_size() const override { return n; }
  void display(std::ostream& s) const override { s << "recorder"; }
  double best(size_t to = size_t(-1)) const { double b = -std::numeric_limits<double>::infinity(); for (size_t i = 0; i < log.size() && i < to; i++) b = std::max(b, log[i].v); return b; }
  bool saw(const BV& x) const { for (auto& e : log) if (e.x == x) return true; return false; }
};
// Runs the algorithm; false if interrupted
inline bool run(Inst& i, Recorder& r) { std::vector<Function *> fs{&r}; bool done = true; try { i.a->maximize(fs); } catch (hnco::exception::LastEvaluation&) { done = false; } i.a->finalize(); return done; }
}
#endif
