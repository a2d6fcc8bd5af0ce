// P05: wrappers compute exactly the composed function.
#include "stack.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include <cfloat>
using namespace cat; using namespace hnco::neighborhood;
static void check(Gen& g, Fn& F, Function *base, int points) {
  REQUIRE(F.f->get_bv_size() == F.n, "size", F.name << " says " << F.f->get_bv_size() << " expected " << F.n);
  for (int t = 0; t < points; t++) { BV x = gen_point(g, F), x0 = x; double w = F.ref(x), v = g.chance(1, 4) ? F.f->evaluate_safely(x) : F.f->evaluate(x); REQUIRE(x == x0, "argument-changed", F.name);
    if (std::fabs(w) < 1e100) REQUIRE(F.exact ? v == w : pbt::close(v, w, F.scale, 1e-9), "composition", F.name << " x=" << pbt::show(x) << " value " << v << " expected " << w);
    if (g.chance(1, 3)) { std::ostringstream a, b; F.f->describe(x, a); base->describe(F.act(x), b); REQUIRE(a.str() == b.str(), "describe", F.name << " x=" << pbt::show(x) << "\n" << a.str() << "\nexpected\n" << b.str()); }
    if (g.chance(1, 8)) { std::ostringstream a, b; F.f->display(a); base->display(b); REQUIRE(a.str() == b.str(), "display", a.str()); } }
  if (F.f->has_known_maximum() && base->has_known_maximum()) REQUIRE(F.f->get_maximum() == base->get_maximum(), "maximum", F.name);
}
PBT(single, 60000, 600000) { seed(g); int n = g.chance(1, 40) ? g.irange(20, 150) : gen_n(g, 1, 14); Keep keep; Fn F = gen_fn(g, n); Function *base = F.f.get(); wrap(g, F, keep, g.below(W_COUNT)); g.note() << F.name; g.nontrivial(n > 2); check(g, F, base, 3); }
PBT(nested, 60000, 600000) { seed(g); int n = g.chance(1, 40) ? g.irange(15, 90) : gen_n(g, 1, 10); Keep keep; Fn F = gen_fn(g, n); Function *base = F.f.get(); int d = g.irange(2, 6), parsed = 0; for (int i = 0; i < d; i++) { int k = g.below(W_COUNT); if (k == W_PARSED && parsed++ >= 2) k = W_OPP; wrap(g, F, keep, k); } g.note() << F.name; g.nontrivial(n > 2); check(g, F, base, 4); }
PBT(exhaustive, 6000, 60000) { seed(g); int n = gen_n(g, 1, 6); Keep keep; Fn F = gen_fn(g, n); int d = g.irange(1, 4); for (int i = 0; i < d; i++) { int k = g.pick(std::vector<int>{W_OPP, W_MAP, W_MAP, W_CACHE, W_TRACKER}); if (k == W_MAP && F.n > 7) k = W_OPP; wrap(g, F, keep, k, true); } g.note() << F.name; g.nontrivial(n > 2); for (uint64_t v = 0; v < (1ULL << F.n); v++) { BV x = from_int(v, F.n); double a = F.f->evaluate(x), b = F.ref(x); REQUIRE(F.same(a, b), "composition", F.name << " x=" << pbt::show(x) << " " << a << " expected " << b); } }
PBT(incompatible_map, 4000, 40000) { seed(g); int n = g.small(1, 10), m = g.small(1, 10); OneMax f(n); hnco::map::Translation t; t.random(m); bool thrown = false; try { FunctionMapComposition c(&f, &t); } catch (std::runtime_error&) { thrown = true; } REQUIRE(thrown == (n != m), "incompatible-sizes", n << " " << m); g.nontrivial(n != m); g.note() << n << " " << m; }
PBT(bad_expression, 3000, 30000) { static const std::vector<std::string> bad = {"x+", "y", "(x", "x)", "", "x*/2", "foo(x)", "min(x)", "x y", "2x+", "if(x)"}; OneMax f(3); const std::string& s = g.pick(bad); bool thrown = false; try { ParsedModifier p(&f, s); } catch (std::runtime_error&) { thrown = true; } REQUIRE(thrown, "bad-expression", s); g.nontrivial(); g.note() << s; }
struct Spy: Function { int n; std::vector<BV> seen; int get_bv_size() const override { return n; } double evaluate(const BV& x) override { seen.push_back(x); return seen.size(); } };
PBT(prior_noise, 30000, 300000) {
  seed(g); Spy s; s.n = g.small(1, 20); int n = s.n, kind = g.below(5); std::unique_ptr<Neighborhood> nh; int lo = 1, hi = n; std::ostringstream d;
  switch (kind) { case 0: nh.reset(new SingleBitFlip(n)); hi = 1; d << "single"; break;
  case 1: { int r = g.irange(1, n); nh.reset(new HammingBall(n, r)); hi = r; d << "ball " << r; break; }
  case 2: { int r = g.irange(1, n); nh.reset(new HammingSphere(n, r)); lo = hi = r; d << "sphere " << r; break; }
  case 3: { auto m = new StandardBitMutation(n); if (g.flag()) m->set_mutation_rate(g.real(0.05, 1)); nh.reset(m); d << "mutation"; break; }
  default: { auto m = new StandardBitMutation(n); m->set_allow_no_mutation(true); bool zero = g.flag(); m->set_mutation_rate(zero ? 0 : g.real(0, 1)); nh.reset(m); lo = 0; if (zero) hi = 0; d << "mutation0"; } }
  PriorNoise p(&s, nh.get()); REQUIRE(p.get_bv_size() == n && !p.provides_incremental_evaluation(), "declared", ""); g.note() << d.str() << " n=" << n; g.nontrivial(n > 2);
  for (int t = 0; t < 5; t++) { BV x = g.bits(n), x0 = x; size_t k = s.seen.size(); double v = p.evaluate(x); REQUIRE(x == x0, "argument-changed", ""); REQUIRE(s.seen.size() == k + 1 && v == double(k + 1), "one-evaluation", ""); int dist = 0; for (int i = 0; i < n; i++) dist += s.seen.back()[i] != x[i]; REQUIRE(dist >= lo && dist <= hi, "prior-noise-distance", d.str() << " evaluated " << pbt::show(s.seen.back()) << " for " << pbt::show(x)); }
}
PBT(gaussian_noise, 60, 600) { // 4000 draws: bounds are beyond seven standard deviations
  seed(g); int n = g.small(1, 8); Fn F = gen_fn(g, n); double sd = g.pick(std::vector<double>{0.1, 1, 2.5, 10}); AdditiveGaussianNoise a(F.f.get(), sd); BV x = g.bits(n); double f = F.f->evaluate(x), s = 0, q = 0; if (std::fabs(f) > 1e5) throw pbt::Discard(); int N = 4000; std::set<double> d; for (int i = 0; i < N; i++) { double e = (a.evaluate(x) - f) / sd; s += e; q += e * e; d.insert(e); }
  REQUIRE(a.get_bv_size() == n && !a.provides_incremental_evaluation() && !a.has_known_maximum(), "declared", ""); REQUIRE(std::fabs(s / N) < 0.12, "noise-mean", s / N); REQUIRE(q / N > 0.8 && q / N < 1.2, "noise-variance", q / N); REQUIRE(int(d.size()) > N / 2, "noise-constant", d.size()); g.nontrivial(); g.note() << F.name << " sd=" << sd;
}
PBT(tiny_noise, 3000, 30000) { seed(g); int n = gen_n(g, 1, 12); Fn F = gen_fn(g, n); AdditiveGaussianNoise a(F.f.get(), 1e-13); BV x = g.bits(n); double v = a.evaluate(x), w = F.ref(x); REQUIRE(pbt::close(v, w, F.scale + 1, 1e-9), "tiny-noise", F.name << " " << v << " " << w); g.nontrivial(n > 2); g.note() << F.name; }
