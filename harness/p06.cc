// P06: parallel evaluation gives the sequential result.
#include "algorithms.hh"
#include "objectives.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/functions/collection/theory.hh"
#include "hnco/functions/collection/linear-function.hh"
#include "hnco/functions/collection/qubo.hh"
#include "hnco/functions/collection/nk-landscape.hh"
#include "hnco/functions/collection/max-sat.hh"
#include "hnco/functions/collection/labs.hh"
#include "hnco/functions/collection/walsh/walsh-expansion.hh"
#include "hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh"
#include "hnco/maps/map.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/multiobjective/algorithms/population.hh"
#include <omp.h>
#include <sched.h>
#include <time.h>
using namespace alg; using namespace hnco::function; using namespace hnco::function::controller; using namespace hnco::exception; namespace mo = hnco::multiobjective;
typedef hnco::algorithm::Population Pop;
// Perturbs the thread schedule; depends on the point only, so that replays perturb alike
static void jitter(uint64_t h) { switch (h % 16) { case 0: { timespec t{0, long(h >> 40) % 30000}; nanosleep(&t, nullptr); break; } case 1: case 2: case 3: sched_yield(); break; case 4: case 5: { volatile int k = 0; for (int i = 0; i < int(h >> 50) % 800; i++) k += i; break; } default:; } }
// A function with scratch memory, as most functions of the library: wrong values if two threads share it.
class Scratch: public hnco::function::Function {
public:
  std::function<double(const BV&)> f; int n; BV buf; uint64_t salt; bool slow; bool main_ = false; long budget = -1; std::vector<Ev> log; std::vector<int> kinds;
  Scratch(std::function<double(const BV&)> f, int n, uint64_t salt, bool slow): f(f), n(n), buf(n), salt(salt), slow(slow) {}
  int get_bv_size() const override { return n; }
  double compute(const BV& x) { buf = x; if (slow) jitter(obj::hash(x, salt)); double a = f(buf); if (slow) jitter(obj::hash(x, salt + 1)); return a == f(buf) ? a : a + f(buf); }
  double evaluate(const BV& x) override { if (main_ && budget >= 0 && long(log.size()) >= budget) throw LastEvaluation(); double v = compute(x); if (main_) { log.push_back({x, v, false}); kinds.push_back(0); } return v; }
  double evaluate_safely(const BV& x) override { return compute(x); }
  void update(const BV& x, double v) override { if (budget >= 0 && long(log.size()) >= budget) throw LastEvaluation(); log.push_back({x, v, false}); kinds.push_back(1); }
};
static void fill(Gen& g, Pop& p) { int n = p.get_bv_size(); int dup = g.below(3); for (size_t i = 0; i < p.bvs.size(); i++) { if (i && dup == 0 && g.chance(1, 3)) p.bvs[i] = p.bvs[g.below(i)]; else p.bvs[i] = dup == 1 ? g.bits(n) : g.rawbits(n); p.values[i] = -12345; } }
PBT(values, 1500, 15000) {
  int n = g.small(1, 40), N = g.chance(1, 4) ? g.irange(50, 300) : g.small(1, 40), K = g.irange(1, 8), rounds = g.irange(1, 3); auto o = obj::gen_obj(g, n); bool slow = g.flag(); uint64_t salt = g.seed32(); omp_set_num_threads(K); g.note() << N << " points of " << n << " bits, " << K << " threads on " << o.name; g.nontrivial(N > 1 && K > 1);
  std::vector<std::shared_ptr<Scratch>> s; std::vector<hnco::function::Function *> fs; for (int k = 0; k < K; k++) { s.push_back(std::make_shared<Scratch>(o.f, n, salt, slow)); fs.push_back(s[k].get()); } Pop p(N, n);
  for (int t = 0; t < rounds; t++) { fill(g, p); auto before = p.bvs; auto perm = p.permutation; s[0]->log.clear(); p.evaluate_in_parallel(fs); REQUIRE(p.bvs == before && p.permutation == perm && int(p.values.size()) == N, "population", "bit vectors changed"); for (int i = 0; i < N; i++) REQUIRE(p.values[i] == o.f(before[i]), "value", "slot " << i << " of " << N << " has " << p.values[i] << " instead of " << o.f(before[i]) << " with " << K << " threads");
    REQUIRE(int(s[0]->log.size()) == N, "reports", s[0]->log.size() << " reports to the main function for " << N << " points"); for (int i = 0; i < N; i++) REQUIRE(s[0]->log[i].x == before[i] && s[0]->log[i].v == p.values[i], "order", "report " << i << " is not individual " << i); for (int k = 1; k < K; k++) REQUIRE(s[k]->log.empty(), "reports", "function " << k << " got reports"); }
}
// Functions and wrappers of the library, one copy per thread made from one seed, as the application does
static std::shared_ptr<hnco::function::Function> lib_function(int kind, int n, unsigned sd) {
  hnco::random::Generator::set_seed(sd);
  switch (kind) {
  case 0: return std::make_shared<OneMax>(n); case 1: return std::make_shared<LeadingOnes>(n);
  case 2: { auto f = std::make_shared<LinearFunction>(); f->random(n); return f; }
  case 3: { auto f = std::make_shared<NkLandscape>(); f->random(n, std::min(n - 1, 3)); return f; }
  case 4: { auto f = std::make_shared<MaxSat>(); f->random(n, std::min(n, 3), 4 * n); return f; }
  case 5: return std::make_shared<Labs>(n);
  case 6: { auto f = std::make_shared<WalshExpansion>(); f->random(n, 10); return f; }
  default: { auto f = std::make_shared<NearestNeighborIsingModel2>(); f->random(1, n); return f; }
  }
}
struct Owned { std::vector<std::shared_ptr<void>> keep; hnco::function::Function *top; };
static Owned lib_stack(int kind, int n, unsigned sd, const std::vector<int>& mods, std::shared_ptr<hnco::function::Function> base = nullptr) {
  Owned o; auto f = base ? base : lib_function(kind, n, sd); o.keep.push_back(f); o.top = f.get(); unsigned c = sd;
  for (int m : mods) { hnco::random::Generator::set_seed(++c);
    if (m == 0) { auto w = std::make_shared<hnco::function::modifier::OppositeFunction>(o.top); o.keep.push_back(w); o.top = w.get(); }
    else { std::shared_ptr<hnco::map::Map> mp; if (m == 1) { auto q = std::make_shared<hnco::map::Translation>(); q->random(n); mp = q; } else if (m == 2) { auto q = std::make_shared<hnco::map::Permutation>(); q->random(n); mp = q; } else if (m == 3) { auto q = std::make_shared<hnco::map::AffineMap>(); q->random(n, n, true); mp = q; } else { auto a = std::make_shared<hnco::map::Permutation>(); a->random(n); auto b = std::make_shared<hnco::map::Translation>(); b->random(n); o.keep.push_back(a); o.keep.push_back(b); mp = std::make_shared<hnco::map::MapComposition>(a.get(), b.get()); }
      o.keep.push_back(mp); auto w = std::make_shared<hnco::function::modifier::FunctionMapComposition>(o.top, mp.get()); o.keep.push_back(w); o.top = w.get(); } }
  return o;
}
PBT(library_functions, 800, 8000) {
  int kind = g.below(8), n = g.irange(kind == 5 ? 2 : 2, 24), N = g.small(1, 80), K = g.irange(1, 8); unsigned sd = g.seed32(); std::vector<int> mods(g.below(4)); for (auto& m : mods) m = g.below(5); omp_set_num_threads(K); g.note() << "function " << kind << " n=" << n << " N=" << N << " threads " << K << " modifiers " << pbt::showv(mods); g.nontrivial(N > 1 && K > 1);
  std::vector<Owned> os; std::vector<hnco::function::Function *> fs; for (int k = 0; k < K; k++) { os.push_back(lib_stack(kind, n, sd, mods)); fs.push_back(os[k].top); } Owned ref = lib_stack(kind, n, sd, mods); Pop p(N, n); fill(g, p); Pop q = p; p.evaluate_in_parallel(fs); q.evaluate(ref.top); for (int i = 0; i < N; i++) REQUIRE(p.values[i] == q.values[i], "value", "slot " << i << " has " << p.values[i] << " instead of " << q.values[i]);
}
// Controllers on the main function
struct Ctl { int kind; double par; };
struct CStack { std::vector<std::shared_ptr<hnco::function::Function>> keep; hnco::function::Function *top; };
static CStack controllers(hnco::function::Function *base, const std::vector<Ctl>& cs) { CStack s; s.top = base; for (auto& c : cs) { std::shared_ptr<hnco::function::Function> w; switch (c.kind) { case 0: w = std::make_shared<CallCounter>(s.top); break; case 1: w = std::make_shared<OnBudgetFunction>(s.top, int(c.par)); break; case 2: { auto t = std::make_shared<ProgressTracker>(s.top); t->set_record_bit_vector(true); w = t; break; } case 3: w = std::make_shared<Cache>(s.top); break; default: w = std::make_shared<StopOnTarget>(s.top, c.par); } s.keep.push_back(w); s.top = w.get(); } return s; }
static std::string state(const CStack& s, const std::vector<Ctl>& cs, int end) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < cs.size(); i++) { switch (cs[i].kind) { case 0: case 1: o << "calls " << static_cast<CallCounter *>(s.keep[i].get())->get_num_calls() << "; "; break; case 2: { auto t = static_cast<ProgressTracker *>(s.keep[i].get()); o << "tracker " << t->get_num_calls(); if (t->get_num_calls()) o << " best " << t->get_last_improvement().solution.second << " at " << t->get_last_improvement().num_evaluations << " " << pbt::show(t->get_last_improvement().solution.first); o << "; "; break; } case 3: o << "cache " << static_cast<Cache *>(s.keep[i].get())->get_lookup_ratio() << "; "; break; default: if (end == 2) { auto& t = static_cast<StopOnTarget *>(s.keep[i].get())->get_trigger(); o << "trigger " << t.second << " " << pbt::show(t.first) << "; "; } } } return o.str(); }
PBT(accounting, 2500, 30000) {
  int n = g.small(1, 12), K = g.irange(1, 8), rounds = g.irange(1, 4), N = g.small(1, 40); auto o = obj::gen_obj(g, n); std::vector<Ctl> cs; int nc = g.irange(1, 4), targets = 0; omp_set_num_threads(K);
  for (int i = 0; i < nc; i++) { Ctl c; c.kind = g.below(5); if (c.kind == 4 && targets++) c.kind = 0; c.par = c.kind == 1 ? g.irange(0, N * rounds + 3) : o.f(g.rawbits(n)) + (g.chance(1, 4) ? 0.5 : 0); cs.push_back(c); } if (g.chance(1, 3)) { cs = {{2, 0}, {1, double(g.irange(1, N * rounds))}, {4, o.f(g.rawbits(n))}}; if (g.flag()) cs.insert(cs.begin() + 1, {3, 0}); }
  g.note() << N << " points of " << n << " bits x" << rounds << ", " << K << " threads on " << o.name << ", controllers"; for (auto& c : cs) g.note() << " " << c.kind << "/" << c.par; g.nontrivial(N > 1);
  bool slow = g.chance(1, 4); Scratch a(o.f, n, 1, slow), b(o.f, n, 1, false); std::vector<std::shared_ptr<Scratch>> other; std::vector<hnco::function::Function *> fs; CStack sa = controllers(&a, cs), sb = controllers(&b, cs); fs.push_back(sa.top); std::vector<CStack> more; bool ctl_all = g.chance(1, 4); for (int k = 1; k < K; k++) { other.push_back(std::make_shared<Scratch>(o.f, n, 1, slow)); if (ctl_all) { more.push_back(controllers(other.back().get(), cs)); fs.push_back(more.back().top); } else fs.push_back(other.back().get()); }
  Pop p(N, n), q(N, n); b.main_ = true;
  for (int t = 0; t < rounds; t++) {
    fill(g, p); q = p; int ea = 0, eb = 0; try { p.evaluate_in_parallel(fs); } catch (LastEvaluation&) { ea = 1; } catch (TargetReached&) { ea = 2; } try { q.evaluate(sb.top); } catch (LastEvaluation&) { eb = 1; } catch (TargetReached&) { eb = 2; }
    static const char *nm[] = {"completes", "LastEvaluation", "TargetReached"}; REQUIRE(ea == eb, "outcome", "round " << t << ": parallel " << nm[ea] << ", sequential " << nm[eb]); std::string x = state(sa, cs, ea), y = state(sb, cs, eb); REQUIRE(x == y, "state", "round " << t << " (" << nm[ea] << "): parallel " << x << "sequential " << y);
    REQUIRE(a.log.size() == b.log.size(), "reports", "round " << t << ": the function was told " << a.log.size() << " evaluations, " << b.log.size() << " made sequentially"); for (size_t i = 0; i < a.log.size(); i++) REQUIRE(a.log[i].x == b.log[i].x && a.log[i].v == b.log[i].v, "order", "report " << i); if (ea) break; REQUIRE(p.values == q.values, "value", "round " << t << ": values differ");
  }
}
static std::vector<int> pks() { std::vector<int> v; for (int k = 0; k < A_NATIVE; k++) if (is_parallel(k)) v.push_back(k); return v; }
PBT(algorithms, 1200, 15000) { // whole runs with several threads against runs with one
  int k = g.pick(pks()), n = g.small(2, 20), T = g.small(1, 10), K = g.irange(2, 8); Spec s = make_spec(g, k, n, T); auto o = obj::gen_obj(g, n); unsigned sd = g.seed32(); bool slow = g.chance(1, 6); long budget = g.chance(1, 3) ? s.init + g.small(0, 60) : -1; omp_set_num_threads(K); g.note() << s.name << " on " << o.name << ", " << K << " threads, budget " << budget; g.nontrivial(true); g.label(s.name.substr(0, s.name.find(' ')));
  auto go = [&](int threads, Scratch& main, solution_t& sol) { main.main_ = true; main.budget = budget; std::vector<std::shared_ptr<Scratch>> other; std::vector<hnco::function::Function *> fs{&main}; for (int j = 1; j < threads; j++) { other.push_back(std::make_shared<Scratch>(o.f, n, 1, slow)); fs.push_back(other.back().get()); } hnco::random::Generator::set_seed(sd); Inst i = s.make(); bool done = true; try { i.a->maximize(fs); } catch (LastEvaluation&) { done = false; } if (done) i.a->finalize(); sol = i.a->get_solution(); for (auto& q : other) if (!q->log.empty()) FAIL("reports", "secondary function got reports"); return done; };
  Scratch a(o.f, n, 1, slow), b(o.f, n, 1, false); solution_t x, y; bool da = go(K, a, x), db = go(1, b, y); REQUIRE(da == db, "outcome", s.name << ": parallel run " << (da ? "completes" : "interrupted") << ", sequential one " << (db ? "completes" : "interrupted"));
  size_t m = std::min(a.log.size(), b.log.size()); for (size_t i = 0; i < m; i++) REQUIRE(a.log[i].x == b.log[i].x && a.log[i].v == b.log[i].v, "trajectory", s.name << ": evaluation " << i << " differs between " << K << " threads and one"); REQUIRE(a.log.size() == b.log.size(), "count", s.name << ": " << a.log.size() << " evaluations with " << K << " threads, " << b.log.size() << " with one");
  REQUIRE(x.second == y.second && x.first == y.first, "solution", s.name << ": solution " << x.second << " with " << K << " threads, " << y.second << " with one");
}
PBT(parallel_use, 300, 3000) { // several functions are given: population-based algorithms report every member of a population, in order
  int k = g.pick(pks()), n = g.irange(2, 12), T = g.irange(1, 5), K = g.irange(2, 6); Spec s = make_spec(g, k, n, T); auto o = obj::gen_obj(g, n); seed(g); omp_set_num_threads(K); g.note() << s.name; g.nontrivial(true); Scratch a(o.f, n, 1, false); a.main_ = true; std::vector<std::shared_ptr<Scratch>> other; std::vector<hnco::function::Function *> fs{&a}; for (int j = 1; j < K; j++) { other.push_back(std::make_shared<Scratch>(o.f, n, 1, false)); fs.push_back(other.back().get()); } Inst i = s.make(); i.a->maximize(fs); i.a->finalize(); for (auto& e : a.log) REQUIRE(e.v == o.f(e.x), "value", s.name << " reported " << e.v << " for a point of value " << o.f(e.x)); if (s.iter) REQUIRE(long(a.log.size()) == s.init + s.iter * T, "count", a.log.size() << " instead of " << s.init + s.iter * T); solution_t x = i.a->get_solution(); REQUIRE(x.second == o.f(x.first), "solution", x.second);
}
// Multi-objective
typedef std::vector<double> Val;
struct MScratch: mo::function::Function { int n, m; std::function<Val(const BV&)> f; BV buf; bool slow; std::vector<BV> log; MScratch(int n, int m, std::function<Val(const BV&)> f, bool slow): n(n), m(m), f(f), buf(n), slow(slow) {} int get_bv_size() const override { return n; } int get_output_size() const override { return m; } void evaluate(const BV& x, mo::function::value_t& v) override { buf = x; if (slow) jitter(obj::hash(x, 5)); Val a = f(buf); if (slow) jitter(obj::hash(x, 6)); v = a == f(buf) ? a : Val(m, 1e30); log.push_back(x); } };
static std::function<Val(const BV&)> gen_mo(Gen& g, int m) { uint64_t salt = g.seed32(); int mod = g.pick(std::vector<int>{2, 5, 1000, 1000000}); return [=](const BV& x) { Val v(m); for (int i = 0; i < m; i++) v[i] = double(obj::hash(x, salt + i) % mod); return v; }; }
PBT(multiobjective_values, 800, 8000) {
  int n = g.small(1, 20), m = g.irange(1, 4), N = g.small(1, 60), K = g.irange(1, 8); bool slow = g.flag(); auto f = gen_mo(g, m); omp_set_num_threads(K); g.note() << N << " points of " << n << " bits, " << m << " objectives, " << K << " threads"; g.nontrivial(N > 1 && K > 1); std::vector<std::shared_ptr<MScratch>> s; std::vector<mo::function::Function *> fs; for (int k = 0; k < K; k++) { s.push_back(std::make_shared<MScratch>(n, m, f, slow)); fs.push_back(s[k].get()); } mo::algorithm::Population p(N, n, m); for (auto& x : p.bvs) x = g.rawbits(n); auto before = p.bvs; p.evaluate_in_parallel(fs); REQUIRE(p.bvs == before, "population", "bit vectors changed"); for (int i = 0; i < N; i++) REQUIRE(p.values[i] == f(before[i]), "value", "slot " << i << " has " << pbt::showv(p.values[i]) << " instead of " << pbt::showv(f(before[i]))); size_t c = 0; for (auto& q : s) c += q->log.size(); REQUIRE(int(c) == N, "count", c << " evaluations for " << N << " points");
}
PBT(nsga2, 400, 5000) {
  int n = g.small(2, 14), m = g.irange(1, 3), mu = g.irange(4, 20), T = g.small(0, 8), K = g.irange(2, 8); auto f = gen_mo(g, m); unsigned sd = g.seed32(); bool slow = g.chance(1, 4); omp_set_num_threads(K); g.note() << "nsga2 n=" << n << " mu " << mu << " T=" << T << " threads " << K; g.nontrivial(T > 0);
  auto go = [&](int threads) { std::vector<std::shared_ptr<MScratch>> s; std::vector<mo::function::Function *> fs; for (int k = 0; k < threads; k++) { s.push_back(std::make_shared<MScratch>(n, m, f, slow)); fs.push_back(s[k].get()); } hnco::random::Generator::set_seed(sd); mo::algorithm::Nsga2 a(n, m, mu); a.set_num_iterations(T); a.set_tournament_size(2); a.set_mutation_rate(1.0 / n); a.minimize(fs); auto sol = a.get_solutions(); std::vector<std::pair<BV, Val>> r; for (size_t i = 0; i < sol.bvs.size(); i++) r.push_back({sol.bvs[i], sol.values[i]}); size_t c = 0; for (auto& q : s) c += q->log.size(); return std::make_pair(c, r); };
  auto a = go(K), b = go(1); REQUIRE(a.first == b.first && long(a.first) == long(mu) * (1 + T), "count", a.first << " evaluations with " << K << " threads, " << b.first << " with one"); REQUIRE(a.second == b.second, "solutions", "the solutions of a run with " << K << " threads differ from those with one");
}
