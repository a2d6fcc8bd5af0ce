// P19: a seed determines the whole run.
#define VERIF_THIRD_PARTY
#include "algorithms.hh"
#include "functions.hh"
#include "objectives.hh"
#include "hnco/bit-matrix.hh"
#include "hnco/permutation.hh"
#include "hnco/maps/map.hh"
#include "hnco/maps/transvection.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/algorithms/probability-vector/probability-vector.hh"
using namespace alg; using obj::gen_obj; using obj::Obj; typedef hnco::random::Generator RG;
struct Capture { std::ostringstream o; std::streambuf *old; Capture(): old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
static int pick_n(Gen& g, int k) { int n = k == A_COMPLETE ? g.irange(1, 7) : g.small(2, 24); if (g.chance(1, 20) && k != A_COMPLETE) n = g.irange(30, 60); while (!fits(k, n)) n++; return n; }
static void set_logs(Algorithm *a) {
  if (auto p = dynamic_cast<PvAlgorithm *>(a)) p->set_log_entropy(true);
  if (auto p = dynamic_cast<SelfAdjustingOnePlusOneEa *>(a)) p->set_log_mutation_rate(true);
  if (auto p = dynamic_cast<TwoRateOnePlusLambdaEa *>(a)) p->set_log_mutation_rate(true);
  if (auto p = dynamic_cast<InformationTheoreticEa *>(a)) p->set_log_mutation_rate(true);
}
struct Trace { std::vector<Ev> log; solution_t sol; std::string out; bool done; };
static Trace go(Inst& i, const Obj& o, int n, long budget, unsigned seed, bool logs) { Trace t; Recorder r(o.f, n, true, budget); r.same = [](double, double) { return true; }; if (logs) set_logs(i.a.get()); RG::set_seed(seed); { Capture c; t.done = run(i, r); t.out = c.o.str(); } t.sol = i.a->get_solution(); t.log = r.log; return t; }
static void same(const Trace& a, const Trace& b, const std::string& name, const char *how) {
  size_t m = std::min(a.log.size(), b.log.size()); for (size_t i = 0; i < m; i++) REQUIRE(a.log[i].x == b.log[i].x, "evaluations", name << ", " << how << ": evaluation " << i << " differs: " << pbt::show(a.log[i].x) << " and " << pbt::show(b.log[i].x));
  REQUIRE(a.log.size() == b.log.size() && a.done == b.done, "length", name << ", " << how << ": " << a.log.size() << " and " << b.log.size() << " evaluations"); REQUIRE(a.sol.first == b.sol.first && (a.sol.second == b.sol.second || (std::isnan(a.sol.second) && std::isnan(b.sol.second))), "solution", name << ", " << how); REQUIRE(a.out == b.out, "log", name << ", " << how << ": logs differ");
}
// Activity which must not influence later runs
static std::vector<void *> junk;
static void disturb(Gen& g) {
  int what = g.below(5); RG::set_seed(g.seed32());
  for (int i = g.irange(0, 40); i > 0; i--) junk.push_back(operator new(g.irange(1, 400))); for (size_t i = 0; i < junk.size(); i++) if (g.chance(1, 3)) { operator delete(junk[i]); junk[i] = nullptr; } if (junk.size() > 2000) { for (auto p : junk) operator delete(p); junk.clear(); }
  if (what == 1) for (int i = g.irange(1, 30); i > 0; i--) { RG::normal(); RG::bernoulli(); }
  if (what >= 2) { int k = what == 2 ? A_NATIVE + int(g.below(4)) : int(g.below(A_NATIVE)), n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 5)); Obj o = gen_obj(g, n, true); Inst i = s.make(); Recorder r(o.f, n, true, 60); r.same = [](double, double) { return true; }; run(i, r); g.note() << " (in between " << s.name << ")"; }
}
static long gen_budget(Gen& g, const Spec& s) { return s.budget_only ? g.irange(1, 150) : g.chance(1, 6) ? s.init + g.irange(0, 40) : -1; }
PBT(algorithm_fresh, 2500, 40000) {
  int k = g.chance(1, 3) ? A_NATIVE + int(g.below(4)) : int(g.below(A_NATIVE)), n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 12)); Obj o = gen_obj(g, n, s.single_precision); long budget = gen_budget(g, s); unsigned sd = g.seed32(); bool logs = g.flag(); g.note() << s.name << " on " << o.name << " budget " << budget; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(n > 1);
  Inst a = s.make(); Trace t1 = go(a, o, n, budget, sd, logs); if (g.flag()) a = Inst{}; disturb(g); Inst b = s.make(); Trace t2 = go(b, o, n, budget, sd, logs); same(t1, t2, s.name, "second object, same seed");
}
// Populations and tournaments shuffle the permutation left by the previous run, so that objects
// which hold one only repeat their run when no two points have equal values (no ties to break).
PBT(algorithm_reused, 2000, 30000) {
  int k; do k = g.chance(1, 4) ? A_NATIVE + int(g.below(4)) : int(g.below(A_NATIVE)); while (k == A_GA || k == A_MUP || k == A_MUC || k == A_TWO); int n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 12)); bool single = k <= A_SELF || k == A_MMAS || k == A_CGA || k >= A_NATIVE; uint64_t salt = g.seed32(); Obj o = gen_obj(g, n, s.single_precision); if (!single) { o.f = [salt](const BV& x) { return double(obj::hash(x, salt) >> 11); }; o.name = "injective"; } long budget = gen_budget(g, s); unsigned sd = g.seed32(); bool logs = g.flag(); g.note() << s.name << " on " << o.name << " budget " << budget; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(n > 1);
  Inst a = s.make(); Trace t1 = go(a, o, n, budget, sd, logs); if (g.flag()) { Obj o2 = gen_obj(g, n, s.single_precision); go(a, o2, n, s.budget_only ? 40 : -1, g.seed32(), logs); g.note() << " (same object on " << o2.name << " in between)"; } else disturb(g);
  Trace t2 = go(a, o, n, budget, sd, logs); same(t1, t2, s.name, "same object run again after reseeding");
}
PBT(seeds_matter, 800, 8000) { // runs with 40 bits which are equal for two seeds
  int k; do k = g.chance(1, 4) ? A_NATIVE + int(g.below(4)) : int(g.below(A_NATIVE)); while (k == A_COMPLETE); int n = g.irange(40, 60); Spec s = make_spec(g, k, n, g.irange(2, 6)); if (!s.random_start) throw pbt::Discard{}; Obj o = gen_obj(g, n, s.single_precision); unsigned s1 = g.seed32(), s2 = s1 + 1 + g.below(1000); g.note() << s.name; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(true);
  Inst a = s.make(), b = s.make(); Trace t1 = go(a, o, n, 60, s1, false), t2 = go(b, o, n, 60, s2, false); bool eq = t1.log.size() == t2.log.size(); for (size_t i = 0; eq && i < t1.log.size(); i++) eq = t1.log[i].x == t2.log[i].x; REQUIRE(!eq, "seed-ignored", s.name << ": seeds " << s1 << " and " << s2 << " give the same run of " << t1.log.size() << " evaluations");
}
PBT(restart_fresh, 500, 5000) {
  int k = int(g.below(A_NATIVE)), n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 5)); Obj o = gen_obj(g, n); unsigned sd = g.seed32(); int runs = g.irange(2, 4); g.note() << "restart x" << runs << " " << s.name; g.nontrivial(n > 1);
  auto mk = [&](Inst& in) { Inst r; in = s.make(); auto q = std::make_shared<Restart>(in.a.get()); q->set_num_iterations(runs); r.a = q; return r; }; Inst ia, ib; Inst a = mk(ia); Trace t1 = go(a, o, n, -1, sd, false); disturb(g); Inst b = mk(ib); Trace t2 = go(b, o, n, -1, sd, false); same(t1, t2, "restart " + s.name, "same seed");
}
// Everything else which draws random numbers: a description of what was drawn
typedef std::vector<double> Sig; typedef std::function<Sig()> Draw;
static void put(Sig& s, const BV& x) { for (auto b : x) s.push_back(b); }
template<class F> static Sig probe(F& f, const std::vector<BV>& pts) { Sig s{double(f.get_bv_size())}; for (auto x : pts) { x.resize(f.get_bv_size()); s.push_back(f.evaluate(x)); } return s; }
static Draw gen_draw(Gen& g, std::string& name, bool& rich) { // rich: two draws with different seeds are practically never equal
  using namespace hnco::function; std::vector<BV> pts; for (int i = 0; i < 8; i++) pts.push_back(g.bits(120)); pts.push_back(g.rawbits(120)); pts.push_back(g.rawbits(120)); pts.push_back(g.rawbits(120)); int n = g.irange(2, 40); rich = true;
  switch (g.below(30)) {
  case 0: name = "EqualProducts"; return [=] { EqualProducts f; f.random(n); return probe(f, pts); };
  case 1: name = "LinearFunction"; return [=] { LinearFunction f; f.random(n); return probe(f, pts); };
  case 2: { int k = g.irange(1, std::min(3, n)), c = g.irange(1, 40); name = "MaxSat"; rich = false; return [=] { MaxSat f; f.random(n, k, c); std::ostringstream o; f.display(o); Sig s = probe(f, pts); for (char ch : o.str()) s.push_back(ch); return s; }; }
  case 3: { int k = g.irange(1, std::min(3, n)), c = g.irange(1, 40); BV sol = g.bits(n); name = "MaxSat planted"; rich = false; return [=] { MaxSat f; f.random(sol, k, c); std::ostringstream o; f.display(o); Sig s = probe(f, pts); for (char ch : o.str()) s.push_back(ch); return s; }; }
  case 4: { int k = g.irange(1, std::min(5, n - 1)); name = "NkLandscape"; return [=] { NkLandscape f; f.random(n, k); return probe(f, pts); }; }
  case 5: name = "Partition"; return [=] { Partition f; f.random(n, 1000000); std::ostringstream o; f.display(o); Sig s = probe(f, pts); for (char ch : o.str()) s.push_back(ch); return s; };
  case 6: { int c = g.irange(1, 60); name = "Sudoku"; rich = c > 10; return [=] { Sudoku f; f.random(c); std::ostringstream o; f.display(o); Sig s; for (char ch : o.str()) s.push_back(ch); return s; }; }
  case 7: { std::vector<int> q = gen_perm(g, n), r = gen_perm(g, n); name = "Tsp"; return [=] { Tsp f; f.random(n); return Sig{double(f.get_num_elements()), f.evaluate(q), f.evaluate(r)}; }; }
  case 8: name = "Ising1"; return [=] { NearestNeighborIsingModel1 f; f.random(n); return probe(f, pts); };
  case 9: { int m = g.irange(1, 4); name = "Ising2"; return [=] { NearestNeighborIsingModel2 f; f.random(m, n); return probe(f, pts); }; }
  case 10: name = "Walsh1"; return [=] { WalshExpansion1 f; f.random(n); return probe(f, pts); };
  case 11: name = "Walsh2"; return [=] { WalshExpansion2 f; f.random(n); return probe(f, pts); };
  case 12: { int m = g.irange(1, 20); name = "Walsh"; return [=] { WalshExpansion f; f.random(n, m); return probe(f, pts); }; }
  case 13: case 14: case 15: case 16: case 17: case 18: { int kind = g.below(6), m = g.irange(2, 30), len = g.irange(1, 20), mode = g.below(6); bool surj = n <= m && g.flag(); static const char *nm[] = {"Translation", "Permutation", "LinearMap", "AffineMap", "TsAffineMap", "Injection"}; name = nm[kind]; rich = false;
    return [=] { using namespace hnco::map; Sig s; std::shared_ptr<Map> p; if (kind == 0) { auto q = std::make_shared<Translation>(); q->random(n); p = q; } else if (kind == 1) { auto q = std::make_shared<hnco::map::Permutation>(); q->random(n); p = q; } else if (kind == 2) { auto q = std::make_shared<LinearMap>(); q->random(n, m, surj); p = q; } else if (kind == 3) { auto q = std::make_shared<AffineMap>(); q->random(n, m, surj); p = q; } else { auto q = std::make_shared<TsAffineMap>(); q->random(n, len, mode); p = q; } for (auto x : pts) { x.resize(p->get_input_size()); BV y(p->get_output_size()); p->map(x, y); put(s, y); } return s; }; }
  case 19: { name = "bit vectors, matrices, permutations"; rich = n > 30; return [=] { Sig s; BV x(n); hnco::bv_random(x); put(s, x); hnco::bv_random(x, n / 2); put(s, x); hnco::bit_matrix_t M(3, BV(n)); hnco::bm_random(M); for (auto& r : M) put(s, r); hnco::permutation_t p(n); hnco::perm_identity(p); hnco::perm_shuffle(p); for (int v : p) s.push_back(v); hnco::perm_random(p); for (int v : p) s.push_back(v); return s; }; }
  case 20: case 21: case 22: { HoodSpec h = gen_hood(g, n); name = "neighbourhood " + h.name; rich = false; BV x0 = g.bits(n); return [=] { auto hd = make_hood(h, n); Sig s; BV x = x0, y(n); for (int i = 0; i < 6; i++) { hd->mutate(x); put(s, x); hd->map(x, y); put(s, y); } hd->set_origin(x0); for (int i = 0; i < 6; i++) { hd->propose(); put(s, hd->get_candidate()); if (i % 2) hd->keep(); else hd->forget(); } return s; }; }
  case 23: { double sd = g.real(0.1, 5); name = "gaussian noise"; return [=] { OneMax f(n); modifier::AdditiveGaussianNoise q(&f, sd); Sig s; for (auto x : pts) { x.resize(n); s.push_back(q.evaluate(x)); } return s; }; }
  case 24: { HoodSpec h = gen_hood(g, n); name = "prior noise " + h.name; rich = false; return [=] { LinearFunction f; f.random(n); auto hd = make_hood(h, n); modifier::PriorNoise q(&f, hd.get()); Sig s; for (auto x : pts) { x.resize(n); s.push_back(q.evaluate(x)); } return s; }; }
  case 25: { name = "probability vector"; rich = n > 30; return [=] { hnco::algorithm::pv_t pv(n, 0.5); Sig s; BV x(n); for (int i = 0; i < 3; i++) { hnco::algorithm::pv_sample(pv, x); put(s, x); } return s; }; }
  case 26: { bool full = g.flag(); name = "Gibbs sampler"; rich = false; return [=] { Sig s; auto body = [&](auto& gs) { gs.init(); for (int i = 0; i < 5; i++) { gs.update_sync(); put(s, gs.get_state()); gs.update(i % n); put(s, gs.get_state()); } }; if (full) { wm::FullMoment p(n); p.init(); wm::FullMomentGibbsSampler gs(n, p); body(gs); } else { wm::TriangularMoment p(n); p.init(); wm::TriangularMomentGibbsSampler gs(n, p); body(gs); } return s; }; }
  case 27: { int mu = g.irange(3, 10), T = g.irange(1, 5); name = "Nsga2"; rich = n > 30; struct F: hnco::multiobjective::function::Function { int n; Sig *s; F(int n, Sig *s): n(n), s(s) {} int get_bv_size() const override { return n; } int get_output_size() const override { return 2; } void evaluate(const BV& x, hnco::multiobjective::function::value_t& v) override { put(*s, x); v = {double(obj::hash(x, 1) % 50), double(obj::hash(x, 2) % 50)}; } }; return [=] { Sig s; F f(n, &s); hnco::multiobjective::algorithm::Nsga2 a(n, 2, mu); a.set_num_iterations(T); a.minimize({&f}); const auto& p = a.get_solutions(); for (int i = 0; i < p.get_size(); i++) { put(s, p.bvs[i]); for (double v : p.values[i]) s.push_back(v); } return s; }; }
  case 28: { int k = g.irange(3, 10); name = "population"; rich = n * k > 60; return [=] { Population p(k, n); p.random(); Sig s; for (auto& x : p.bvs) put(s, x); for (auto& v : p.values) v = 1; p.sort(); for (int i : p.permutation) s.push_back(i); p.partial_sort(2); for (int i : p.permutation) s.push_back(i); TournamentSelection t(p); t.set_tournament_size(2); t.init(); for (int i = 0; i < 4; i++) put(s, t.select()); return s; }; }
  default: { name = "uniform, normal, bernoulli"; return [=] { Sig s; for (int i = 0; i < 5; i++) { s.push_back(RG::uniform()); s.push_back(RG::normal()); s.push_back(RG::bernoulli()); } return s; }; }
  }
}
PBT(draws, 12000, 150000) {
  std::string name; bool rich; Draw d = gen_draw(g, name, rich); unsigned sd = g.seed32(); g.note() << name << " seed " << sd; g.label(name.substr(0, name.find(' '))); g.nontrivial(true); RG::set_seed(sd); Sig a = d(); double u1 = RG::uniform(); bool reset = g.flag(); if (g.flag()) { std::string n2; bool r2; Draw e = gen_draw(g, n2, r2); if (!reset) RG::set_seed(g.seed32()); e(); } if (g.chance(1, 20)) disturb(g), reset = false;
  if (reset) RG::reset(); else RG::set_seed(sd); Sig b = d(); REQUIRE(a == b, "draw", name << " differs when drawn again with the same seed" << (reset ? " after reset" : "")); double u2 = RG::uniform(); REQUIRE(u1 == u2, "stream", name << ": the random stream continues differently");
  RG::set_seed(sd + 1 + g.below(1000)); Sig c = d(); if (rich) REQUIRE(c != a, "seed-ignored", name << " is the same for two seeds");
}
PBT(generator, 3000, 30000) {
  unsigned sd = g.seed32(); int n = g.irange(1, 30); g.note() << "seed " << sd; g.nontrivial(true); std::mt19937 ref(sd); RG::set_seed(sd); REQUIRE(RG::seed == sd, "seed", RG::seed); Sig a; for (int i = 0; i < n; i++) { double u = RG::uniform(); REQUIRE(u >= 0 && u < 1, "uniform-range", u); a.push_back(u); } for (int t = 0; t < 2; t++) { RG::normal(); RG::bernoulli(); RG::reset(); REQUIRE(RG::seed == sd, "seed", "changed by reset"); for (int i = 0; i < n; i++) REQUIRE(RG::uniform() == a[i], "reset", "number " << i << " differs after reset"); }
}
PBT(moments, 60, 600) {
  seed(g); int N = 20000; double su = 0, su2 = 0, sn = 0, sn2 = 0; int sb = 0; g.nontrivial(true); for (int i = 0; i < N; i++) { double u = RG::uniform(), z = RG::normal(); su += u; su2 += u * u; sn += z; sn2 += z * z; sb += RG::bernoulli(); } double q = 7 / std::sqrt(N); REQUIRE(std::fabs(su / N - 0.5) < q * 0.29 && std::fabs(su2 / N - 1.0 / 3) < q * 0.3, "uniform", su / N); REQUIRE(std::fabs(sn / N) < q && std::fabs(sn2 / N - 1) < q * 1.42, "normal", sn2 / N); REQUIRE(std::fabs(sb / double(N) - 0.5) < q * 0.5, "bernoulli", sb);
}
