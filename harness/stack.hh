// Stacks of modifiers and controllers over catalogue functions, with the composed reference.
#ifndef VERIF_STACK_HH
#define VERIF_STACK_HH
#include "functions.hh"
#include "hnco/maps/map.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
namespace cat {
using namespace hnco::function::modifier; using namespace hnco::function::controller;
struct Keep { std::vector<std::shared_ptr<Function>> fs; std::vector<std::shared_ptr<hnco::map::Map>> maps; };
// A map with n output bits together with its mathematical action
struct MapRef { std::shared_ptr<hnco::map::Map> m; std::function<BV(const BV&)> act; std::string name; };
inline BV sel(const BV& x, const std::vector<int>& p) { BV y(p.size()); for (size_t i = 0; i < p.size(); i++) y[i] = x[p[i]]; return y; }
inline MapRef gen_map(Gen& g, int n, bool small = false) {
  MapRef r; int hi = small ? 8 : n + 4;
  switch (g.below(6)) {
  case 0: { auto t = new hnco::map::Translation; BV b = g.bits(n); t->set_bv(b); r.m.reset(t); r.act = [b](const BV& x) { BV y = x; for (size_t i = 0; i < y.size(); i++) y[i] ^= b[i]; return y; }; r.name = "translation " + pbt::show(b); break; }
  case 1: { auto t = new hnco::map::Permutation; t->random(n); r.m.reset(t); r.name = "permutation"; break; }
  case 2: { auto t = new hnco::map::LinearMap; int in = g.irange(1, hi); t->random(n, in, in >= n && g.flag()); r.m.reset(t); r.name = "linear " + std::to_string(in); break; }
  case 3: { auto t = new hnco::map::AffineMap; int in = g.irange(1, hi); t->random(n, in, in >= n && g.flag()); r.m.reset(t); r.name = "affine " + std::to_string(in); break; }
  case 4: { int in = g.irange(n, std::max(n, hi)); auto p = gen_perm(g, in); p.resize(n); r.m.reset(new hnco::map::Projection(p, in)); r.act = [p](const BV& x) { return sel(x, p); }; r.name = "projection " + pbt::showv(p) + " of " + std::to_string(in); break; }
  default: { if (n > 1) { auto t = new hnco::map::TsAffineMap; t->random(n, g.small(0, 10), g.below(6)); r.m.reset(t); r.name = "ts-affine"; } else { auto t = new hnco::map::Translation; t->random(n); r.m.reset(t); r.name = "translation"; } }
  }
  if (!r.act) { auto m = r.m; r.act = [m](const BV& x) { BV y(m->get_output_size(), 0); m->map(x, y); return y; }; }
  return r;
}
struct Expr { std::string s; std::function<double(double)> f; };
inline const std::vector<Expr>& exprs() {
  static std::vector<Expr> e = { {"x", [](double x) { return x; }}, {"2*x+1", [](double x) { return 2 * x + 1; }}, {"-x", [](double x) { return -x; }}, {"x^2", [](double x) { return x * x; }}, {"abs(x)", [](double x) { return std::fabs(x); }},
    {"x*x-3*x", [](double x) { return x * x - 3 * x; }}, {"min(x,2)", [](double x) { return std::min(x, 2.0); }}, {"max(x,-1)-x", [](double x) { return std::max(x, -1.0) - x; }}, {"if(x>1,x,1)", [](double x) { return x > 1 ? x : 1.0; }}, {"x/4", [](double x) { return x / 4; }}, {"7", [](double) { return 7.0; }}, {"atan(x)", [](double x) { return std::atan(x); }}, {" ( x + 1 ) * 3 ", [](double x) { return (x + 1) * 3; }} };
  return e;
}
enum { W_OPP, W_MAP, W_PARSED, W_COUNTER, W_BUDGET, W_TARGET, W_TRACKER, W_CACHE, W_COUNT };
// Adds one wrapper. Loose values (not exact) keep a generous scale.
inline void wrap(Gen& g, Fn& F, Keep& keep, int kind, bool small = false) {
  Function *in = F.f.get(); keep.fs.push_back(F.f); auto ref = F.ref;
  switch (kind) {
  case W_OPP: F.f.reset(new OppositeFunction(in)); F.ref = [ref](const BV& x) { return -ref(x); }; F.max = false; F.name = "opposite(" + F.name + ")"; break;
  case W_MAP: { MapRef m = gen_map(g, F.n, small); keep.maps.push_back(m.m); F.f.reset(new FunctionMapComposition(in, m.m.get())); auto act = m.act; F.ref = [ref, act](const BV& x) { return ref(act(x)); }; auto prev = F.act; F.act = [prev, act](const BV& x) { return prev(act(x)); }; F.n = m.m->get_input_size(); F.hint.clear(); F.incr = false; F.max = F.max && m.m->is_surjective(); F.name = "(" + F.name + " o " + m.name + ")"; break; }
  case W_PARSED: { const Expr& e = g.pick(exprs()); F.f.reset(new ParsedModifier(in, e.s)); auto h = e.f; F.ref = [ref, h](const BV& x) { return h(ref(x)); }; F.max = F.incr = false; F.exact = false; F.scale = 1 + F.scale * F.scale * 4 + F.scale * 4; F.name = "parsed[" + e.s + "](" + F.name + ")"; break; }
  case W_COUNTER: F.f.reset(new CallCounter(in)); F.name = "counter(" + F.name + ")"; break;
  case W_BUDGET: F.f.reset(new OnBudgetFunction(in, 1000000000)); F.name = "budget(" + F.name + ")"; break;
  case W_TARGET: F.f.reset(new StopOnTarget(in, std::numeric_limits<double>::infinity())); F.name = "target(" + F.name + ")"; break;
  case W_TRACKER: { auto t = new ProgressTracker(in); t->set_record_bit_vector(g.flag()); F.f.reset(t); F.name = "tracker(" + F.name + ")"; break; }
  case W_CACHE: F.f.reset(new Cache(in)); F.incr = false; F.name = "cache(" + F.name + ")"; break;
  }
}
inline bool is_controller(int k) { return k >= W_COUNTER; }
}
#endif
