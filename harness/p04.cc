// P04: evaluation accounting, model-based over call histories.
#include "common.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/exception.hh"
#include <iostream>
using namespace hnco; using namespace hnco::function; using namespace hnco::function::controller;
// Values come from a small generated table, so that ties and plateaus are common
struct Probe: Function {
  int n; std::vector<double> table; uint64_t salt; int calls = 0, incr = 0, safe = 0, updates = 0;
  double val(const BV& x) const { uint64_t h = salt; for (auto b : x) h = (h * 31 + b + 7) * 0x9e3779b97f4a7c15ULL; return table[(h >> 33) % table.size()]; }
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { calls++; return val(x); }
  bool provides_incremental_evaluation() const override { return true; }
  double evaluate_incrementally(const bit_vector_t& x, double, const sparse_bit_vector_t& f) override { incr++; BV y = x; for (int i : f) y[i] ^= 1; return val(y); }
  double evaluate_safely(const bit_vector_t& x) override { safe++; return val(x); }
  void update(const bit_vector_t&, double) override { updates++; }
};
enum { COUNTER, BUDGET, TARGET, TRACKER, CACHE };
enum Out { RET, LAST, REACHED };
enum Op { EVAL, INC, UPD };
struct Layer { int type; int budget = 0; double target = 0; bool rec = false, log = false; Function *f = nullptr;
  long calls = 0; bool has = false; double best = 0; long index = 0; BV bestx; bool triggered = false; BV trigx; double trigv = 0; std::map<BV, double> seen; long lookups = 0, lookall = 0; bool disturbed = false; };
struct Model { std::vector<Layer> L; std::string logtext; long base_calls = 0, base_incr = 0, base_upd = 0;
  Out run(int i, Op op, const BV& y, double v) { // layer i wraps layer i-1; layer -1 is the base
    if (i < 0) { (op == EVAL ? base_calls : op == INC ? base_incr : base_upd)++; return RET; }
    Layer& l = L[i];
    if (l.type == BUDGET && l.calls == l.budget) return LAST;
    if (l.type == CACHE) { l.lookall++; if (l.seen.count(y)) { l.lookups++; return RET; } Out o = run(i - 1, op, y, v); if (o == RET) l.seen[y] = v; else l.disturbed = true; return o; }
    Out o = run(i - 1, op, y, v); if (o != RET) return o;
    if (l.type != TARGET) l.calls++;
    if (l.type == TARGET && v >= l.target) { l.triggered = true; l.trigx = y; l.trigv = v; return REACHED; }
    if (l.type == TRACKER && (!l.has || v > l.best)) { l.has = true; l.best = v; l.index = l.calls; l.bestx = y; if (l.log) { std::ostringstream s; s << l.index << " " << l.best << "\n"; logtext += s.str(); } }
    return RET;
  } };
static std::string desc(const Layer& l) { std::ostringstream s; static const char *nm[] = {"counter", "budget", "target", "tracker", "cache"}; s << nm[l.type]; if (l.type == BUDGET) s << l.budget; if (l.type == TARGET) s << l.target; if (l.type == TRACKER) s << (l.rec ? "+bv" : "") << (l.log ? "+log" : ""); return s.str(); }
static double beside(Gen& g, double v) { switch (g.below(5)) { case 0: return std::nextafter(v, 1e308); case 1: return std::nextafter(v, -1e308); case 2: return v + 1e-10; case 3: return v - 1e-10; default: return v + g.pick(std::vector<double>{1e-6, -1e-6, 1e-3, -1e-3}); } }
static void history(Gen& g, bool cache_ok, int maxops, bool app_order, int nmax = 6) {
  Probe base; base.n = nmax > 6 ? g.irange(6, nmax) : g.small(1, 6); base.salt = g.u64(); int tn = g.irange(1, 8); for (int i = 0; i < tn; i++) base.table.push_back(g.flag() ? double(g.range(-5, 5)) : g.weight());
  if (g.chance(1, 4)) { int k = g.irange(1, 3); for (int i = 0; i < k; i++) base.table.push_back(beside(g, g.pick(base.table))); } // values that differ by next to nothing
  std::vector<BV> past; Model m; std::vector<std::unique_ptr<Function>> own; Function *top = &base; int depth = g.irange(1, 4); bool has_cache = false; std::vector<int> types;
  if (app_order) { types = {TRACKER}; switch (g.below(4)) { case 0: types.push_back(BUDGET); break; case 1: types.push_back(CACHE); break; case 2: types.push_back(CACHE); types.push_back(BUDGET); break; default: types.push_back(BUDGET); types.push_back(CACHE); } if (g.flag()) types.push_back(TARGET); }
  else for (int i = 0; i < depth; i++) { int t = g.below(cache_ok ? 5 : 4); types.push_back(t); }
  for (int t : types) { Layer l; l.type = t;
    switch (t) { case COUNTER: l.f = new CallCounter(top); break;
    case BUDGET: l.budget = g.chance(1, 6) ? 0 : g.irange(1, maxops); l.f = new OnBudgetFunction(top, l.budget); break;
    case TARGET: l.target = g.chance(1, 3) ? g.pick(base.table) : g.chance(1, 3) ? beside(g, g.pick(base.table)) : g.weight(); l.f = new StopOnTarget(top, l.target); break;
    case TRACKER: { auto p = new ProgressTracker(top); l.rec = g.flag(); l.log = g.chance(1, 4); if (l.rec || g.flag()) p->set_record_bit_vector(l.rec); p->set_log_improvement(l.log); if (g.chance(1, 6)) p->set_record_evaluation_time(true); l.f = p; break; }
    default: l.f = new Cache(top); has_cache = true; }
    own.emplace_back(l.f); top = l.f; m.L.push_back(l); }
  g.note() << "n=" << base.n << " table=" << pbt::showv(base.table); for (auto& l : m.L) g.note() << " " << desc(l); g.note() << " ops:";
  REQUIRE(top->provides_incremental_evaluation() == !has_cache, "incremental-claim", ""); REQUIRE(top->get_bv_size() == base.n, "size", "");
  int ops = g.irange(1, maxops), T = int(m.L.size()) - 1; long safes = 0; g.nontrivial(ops > 3 && base.n > 1); bool ended = false;
  std::ostringstream out; struct Redirect { std::streambuf *old; Redirect(std::streambuf *b): old(std::cout.rdbuf(b)) {} ~Redirect() { std::cout.rdbuf(old); } } red(out.rdbuf());
  for (int o = 0; o < ops; o++) {
    BV x = nmax > 6 && !past.empty() && g.chance(1, 3) ? g.pick(past) : g.bits(base.n), x0 = x; if (nmax > 6) { if (!past.empty() && g.chance(1, 6)) { x = g.pick(past); int i = g.below(base.n); x[i] ^= 1; x0 = x; } past.push_back(x); } int k = g.below(10); Out want, got = RET; double v = 0, r = 0; BV y = x;
    if (k < 4 || (k < 7 && has_cache)) { g.note() << " E" << pbt::show(x); v = base.val(x); want = m.run(T, EVAL, x, v); try { r = top->evaluate(x); } catch (exception::LastEvaluation&) { got = LAST; } catch (exception::TargetReached&) { got = REACHED; } }
    else if (k < 7) { auto f = gen_subset(g, base.n, g.irange(0, base.n)); y = flipped(x, f); sparse_bit_vector_t sp(f.begin(), f.end()); g.note() << " I" << pbt::show(x) << pbt::showv(f); v = base.val(y); want = m.run(T, INC, y, v); try { r = top->evaluate_incrementally(x, base.val(x), sp); } catch (exception::LastEvaluation&) { got = LAST; } catch (exception::TargetReached&) { got = REACHED; } }
    else if (k < 9) { g.note() << " U" << pbt::show(x); v = base.val(x); want = m.run(T, UPD, x, v); r = v; try { top->update(x, v); } catch (exception::LastEvaluation&) { got = LAST; } catch (exception::TargetReached&) { got = REACHED; } }
    else { g.note() << " S" << pbt::show(x); v = base.val(x); want = RET; safes++; r = top->evaluate_safely(x); }
    REQUIRE(x == x0, "argument-changed", ""); static const char *nm[] = {"returns", "LastEvaluation", "TargetReached"};
    REQUIRE(got == want, "outcome", "op " << o << " " << nm[got] << ", expected " << nm[want]); if (got == RET) REQUIRE(r == v, "value", "op " << o << " returned " << r << " expected " << v); else ended = true;
    REQUIRE(base.calls == m.base_calls && base.incr == m.base_incr && base.updates == m.base_upd, "delivered", "op " << o << " base saw " << base.calls << "/" << base.incr << "/" << base.updates << " expected " << m.base_calls << "/" << m.base_incr << "/" << m.base_upd); REQUIRE(base.safe <= safes && (safes == 0 || base.safe >= 0), "safe", base.safe);
    for (size_t i = 0; i < m.L.size(); i++) { Layer& l = m.L[i];
      if (l.type == COUNTER || l.type == BUDGET || l.type == TRACKER) REQUIRE(((CallCounter *)l.f)->get_num_calls() == l.calls, "count", desc(l) << " counts " << ((CallCounter *)l.f)->get_num_calls() << " expected " << l.calls << " after op " << o);
      if (l.type == TARGET && l.triggered) { auto& t = ((StopOnTarget *)l.f)->get_trigger(); REQUIRE(t.first == l.trigx && t.second == l.trigv, "trigger", pbt::show(t.first) << " " << t.second << " expected " << pbt::show(l.trigx) << " " << l.trigv); }
      if (l.type == TRACKER) { auto& e = ((ProgressTracker *)l.f)->get_last_improvement(); if (!l.has) REQUIRE(e.num_evaluations == 0, "no-improvement-yet", e.num_evaluations); else { REQUIRE(e.solution.second == l.best && e.num_evaluations == l.index, "progress", e.solution.second << " at " << e.num_evaluations << " expected " << l.best << " at " << l.index); if (l.rec) REQUIRE(e.solution.first == l.bestx, "progress-vector", pbt::show(e.solution.first) << " expected " << pbt::show(l.bestx)); } }
      if (l.type == CACHE && !l.disturbed && l.lookall > 0) REQUIRE(((Cache *)l.f)->get_lookup_ratio() == double(l.lookups) / double(l.lookall), "lookup-ratio", ((Cache *)l.f)->get_lookup_ratio() << " expected " << l.lookups << "/" << l.lookall); }
  }
  REQUIRE(out.str() == m.logtext, "improvement-log", "printed " << out.str() << " expected " << m.logtext); g.label(ended ? "signalled" : "ran-to-end");
}
PBT(no_cache, 40000, 400000) { history(g, false, 25, false); }
PBT(with_cache, 40000, 400000) { history(g, true, 40, false); }
PBT(application_order, 30000, 300000) { history(g, true, 40, true); }
PBT(long_history, 1500, 15000) { history(g, g.flag(), 400, g.flag()); }
PBT(many_vectors, 1200, 12000) { history(g, true, 700, g.flag(), g.pick(std::vector<int>{8, 10, 16, 40, 130})); }
PBT(event_display, 3000, 30000) { ProgressTracker::Event e; e.num_evaluations = g.irange(0, 1000000); e.solution.second = g.weight(); std::ostringstream o, w; o << e; w << e.num_evaluations << " " << e.solution.second; REQUIRE(o.str() == w.str(), "event", o.str()); g.nontrivial(); g.note() << w.str(); }
