// P15: reported solutions are genuine.
#define VERIF_THIRD_PARTY
#include "algorithms.hh"
#include "objectives.hh"
#include "hnco/algorithms/human.hh"
#include <iostream>
using namespace alg; using obj::gen_obj; using obj::Obj;
static int pick_n(Gen& g, int k) { int n = k == A_COMPLETE ? g.irange(1, 8) : g.small(1, 24); if (g.chance(1, 20) && k != A_COMPLETE) n = g.irange(30, 70); if (g.chance(1, 80) && k != A_COMPLETE && k < A_NATIVE) n = g.irange(100, 300); if (k == A_HBOA && n > 12) n = 12; while (!fits(k, n)) n++; return n; }
static int pick_kind(Gen& g) { int k = int(g.below(LAST)); if (k == A_HBOA && !g.chance(1, 3)) k = A_FAHC; return k; }
// Index of evaluations that the algorithm documents to keep, among the completed part of the run
static double kept_best(const Spec& s, const Recorder& r, size_t from, size_t to) {
  double b = -std::numeric_limits<double>::infinity();
  for (size_t i = from; i < to; i++) { size_t j = i - from; if (s.kind == A_LL && j > 0 && ((j - 1) % s.iter) < size_t(s.lambda)) continue; b = std::max(b, r.log[i].v); }
  return b;
}
static void genuine(const Spec& s, const Obj& o, const Recorder& r, const solution_t& sol, size_t from = 0) {
  REQUIRE(!r.bad_size, "point", s.name << " evaluated " << r.what); REQUIRE(!r.bad_inc, "incremental", s.name << ": " << r.what);
  REQUIRE(int(sol.first.size()) == s.n && valid(sol.first), "solution-shape", s.name << " " << pbt::show(sol.first));
  double v = o.f(sol.first); if (s.single_precision) v = float(v);
  REQUIRE(sol.second == v, "solution-value", s.name << " on " << o.name << " reports " << sol.second << " for " << pbt::show(sol.first) << " of value " << v);
  bool saw = false; for (size_t i = from; i < r.log.size(); i++) if (r.log[i].x == sol.first) { saw = true; break; }
  REQUIRE(saw, "solution-evaluated", s.name << " " << pbt::show(sol.first));
}
static size_t done_part(const Spec& s, size_t cnt) { // evaluations in completed parts of a run
  if (s.budget_only || s.kind == A_RANDOM || s.kind == A_RLS || s.kind == A_WALK || s.kind == A_1P1 || s.kind == A_SELF || s.kind == A_MMAS || s.kind == A_FAHC || s.kind == A_SA || s.kind == A_COMPLETE) return cnt;
  if (s.iter == 0) return std::min<size_t>(cnt, s.init);
  if (cnt < size_t(s.init)) return 0;
  return s.init + (cnt - s.init) / s.iter * s.iter;
}
PBT(complete_run, 2500, 30000) {
  int k = pick_kind(g), n = pick_n(g, k); Spec s = make_spec(g, k, n, n < 70 && g.chance(1, 100) ? g.irange(100, 500) : g.small(1, 25)); Obj o = gen_obj(g, n, s.single_precision); bool inc = g.flag();
  long budget = s.budget_only ? g.irange(1, 300) : -1; seed(g); g.note() << s.name << " on " << o.name << " budget " << budget; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(n > 1);
  Recorder r(o.f, n, inc, budget); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; Inst i = s.make(); run(i, r); solution_t sol = i.a->get_solution();
  genuine(s, o, r, sol); double b = kept_best(s, r, 0, r.log.size()); if (s.single_precision) b = float(b);
  REQUIRE(sol.second == b, "best", s.name << " on " << o.name << " reports " << sol.second << ", best evaluated " << b);
  if (k == A_COMPLETE) { double m = -1e300; for (uint64_t t = 0; t < (1ULL << n); t++) m = std::max(m, o.f(from_int(t, n))); REQUIRE(sol.second == m, "global-maximum", n); }
}
PBT(interrupted, 3000, 40000) {
  int k = pick_kind(g), n = pick_n(g, k); Spec s = make_spec(g, k, n, g.flag() ? 0 : g.small(1, 25)); Obj o = gen_obj(g, n, s.single_precision); bool inc = g.flag();
  long budget = s.init + g.small(0, 60); if (budget < 1) budget = 1; seed(g); g.note() << s.name << " on " << o.name << " budget " << budget; g.label(s.name.substr(0, s.name.find(' '))); g.nontrivial(n > 1);
  Recorder r(o.f, n, inc, budget); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; Inst i = s.make(); run(i, r); solution_t sol = i.a->get_solution();
  genuine(s, o, r, sol); REQUIRE(long(r.log.size()) <= budget, "budget", r.log.size());
  double b = kept_best(s, r, 0, done_part(s, r.log.size())); if (s.single_precision) b = float(b);
  if (done_part(s, r.log.size()) == r.log.size() && k != A_LL) REQUIRE(sol.second == b, "best", s.name << " on " << o.name << " interrupted after " << budget << " reports " << sol.second << ", best evaluated " << b);
  else REQUIRE(sol.second >= b, "best", s.name << " on " << o.name << " interrupted after " << budget << " reports " << sol.second << ", best of completed iterations " << b);
}
PBT(reuse, 1200, 15000) { // the same object on a second problem
  int k = pick_kind(g), n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 15)); bool inc = g.flag(); seed(g); Inst i = s.make(); int runs = g.irange(2, 3); g.note() << s.name << " x" << runs; g.nontrivial(n > 1);
  for (int t = 0; t < runs; t++) {
    Obj o = gen_obj(g, n, s.single_precision); g.note() << " on " << o.name; Recorder r(o.f, n, inc, s.budget_only ? g.irange(1, 200) : g.chance(1, 3) ? s.init + g.small(0, 30) : -1); r.same = [](double a, double b) { return pbt::close(a, b, 1000); };
    bool done = run(i, r); solution_t sol = i.a->get_solution(); genuine(s, o, r, sol); double b = kept_best(s, r, 0, done ? r.log.size() : done_part(s, r.log.size())); if (s.single_precision) b = float(b);
    REQUIRE(sol.second >= b && (k == A_LL || sol.second <= float(r.best()) || sol.second <= r.best()), "best", s.name << " run " << t << " on " << o.name << " reports " << sol.second << ", best " << b);
  }
}
PBT(sizes, 400, 6000) { // several problems of different sizes in one process
  int runs = g.irange(2, 4), k = g.flag() ? A_NATIVE + int(g.below(4)) : pick_kind(g); g.nontrivial(true);
  for (int t = 0; t < runs; t++) { if (g.chance(1, 4)) k = pick_kind(g); int n = pick_n(g, k); Spec s = make_spec(g, k, n, g.small(1, 8)); Obj o = gen_obj(g, n, s.single_precision); g.note() << s.name << " on " << o.name << "; "; seed(g);
    Recorder r(o.f, n, false, s.budget_only ? g.irange(1, 200) : -1); Inst i = s.make(); run(i, r); solution_t sol = i.a->get_solution(); genuine(s, o, r, sol); double b = kept_best(s, r, 0, r.log.size()); if (s.single_precision) b = float(b); REQUIRE(sol.second == b, "best", s.name << " on " << o.name << " reports " << sol.second << ", best evaluated " << b); }
}
PBT(restart, 1200, 15000) {
  int k; do { k = pick_kind(g); } while (k >= A_NATIVE && g.flag()); int n = pick_n(g, k); if (k >= A_NATIVE) k = A_FAHC; Spec s = make_spec(g, k, n, g.small(1, 8)); Obj o = gen_obj(g, n); bool inc = g.flag(); int runs = g.irange(1, 4);
  long budget = g.flag() ? -1 : s.init + g.small(0, 80); seed(g); g.note() << "restart x" << runs << " " << s.name << " on " << o.name << " budget " << budget; g.nontrivial(runs > 1);
  Recorder r(o.f, n, inc, budget); r.same = [](double a, double b) { return pbt::close(a, b, 1000); }; Inst i = s.make(); Restart rs(i.a.get()); rs.set_num_iterations(runs); std::vector<Function *> fs{&r}; bool done = true; if (g.chance(1, 3)) { Obj o2 = gen_obj(g, n); g.note() << " after " << o2.name; Recorder r2(o2.f, n, inc, g.flag() ? -1 : g.irange(1, 100)); r2.same = r.same; std::vector<Function *> f2{&r2}; try { rs.maximize(f2); } catch (hnco::exception::LastEvaluation&) {} if (g.flag()) rs.finalize(); } try { rs.maximize(fs); } catch (hnco::exception::LastEvaluation&) { done = false; } rs.finalize(); solution_t sol = rs.get_solution();
  genuine(s, o, r, sol);
  if (done && s.kind != A_LL) REQUIRE(sol.second == r.best(), "best", s.name << " restarted " << runs << " times on " << o.name << " reports " << sol.second << " best " << r.best());
  if (s.iter > 0 && s.kind != A_RLS) { long per = s.init + s.iter * s.T; double b = -1e300; long cnt = r.log.size(); for (long a = 0; a < cnt; a += per) { size_t to = a + done_part(s, std::min(per, cnt - a)); b = std::max(b, kept_best(s, r, a, to)); }
    REQUIRE(sol.second >= b, "best", s.name << " restarted on " << o.name << " interrupted after " << cnt << " reports " << sol.second << " best of completed " << b); }
}

// A person types the points: short ones are asked for again, long ones are cut, "quit" or the end of the input stops the run
PBT(human, 2000, 20000) {
  int n = g.small(1, 16), T = g.small(1, 12), lines = g.irange(1, 20); bool quit = g.chance(1, 3); Obj o = gen_obj(g, n); Recorder r(o.f, n); std::string in; std::vector<BV> pts; g.note() << "human n=" << n << " T=" << T << " on " << o.name << ":"; g.nontrivial(n > 1 && lines > 2); g.label("human");
  for (int i = 0; i < lines; i++) { int m = i == 0 || g.chance(2, 3) ? n : g.irange(1, n + 4); BV x = g.bits(m); for (auto b : x) in += b ? '1' : '0'; g.note() << " " << pbt::show(x); in += g.chance(1, 4) ? "  \n" : "\n"; if (m >= n) { x.resize(n); pts.push_back(x); } }
  if (quit) in += "quit\n"; if (long(pts.size()) > T + 1) pts.resize(T + 1);
  struct Redirect { struct Null: std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize k) override { return k; } }; std::istringstream i; Null o; std::streambuf *a, *b; Redirect(const std::string& s): i(s), a(std::cin.rdbuf(i.rdbuf())), b(std::cout.rdbuf(&o)) { std::cin.clear(); } ~Redirect() { std::cin.rdbuf(a); std::cout.rdbuf(b); std::cin.clear(); } } red(in);
  hnco::algorithm::Human h(n); h.set_num_iterations(T); std::vector<Function *> fs{&r}; bool ended = true; try { h.maximize(fs); } catch (hnco::exception::LastEvaluation&) { ended = false; } h.finalize();
  REQUIRE(r.log.size() == pts.size(), "human-points", r.log.size() << " evaluations, " << pts.size() << " points were given"); for (size_t i = 0; i < pts.size(); i++) REQUIRE(r.log[i].x == pts[i], "human-points", "point " << i << " is " << pbt::show(r.log[i].x) << ", given " << pbt::show(pts[i]));
  REQUIRE(ended == (long(pts.size()) == T + 1), "human-end", (ended ? "ended" : "stopped") << " after " << pts.size()); auto sol = h.get_solution(); double b = r.best(); REQUIRE(sol.second == b && o.f(sol.first) == b, "human-solution", sol.second << " best " << b);
}
