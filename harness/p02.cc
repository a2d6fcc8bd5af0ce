// P02: incremental evaluation agrees with full evaluation, under any stack of wrappers.
#include "stack.hh"
using namespace cat;
static std::vector<int> gen_flips(Gen& g, int n) { int m = g.below(6); int k = m == 0 ? 0 : m == 1 ? n : m <= 3 ? std::min(n, 1 + int(g.below(2))) : g.irange(0, n); auto f = gen_subset(g, n, k); return f; }
static void chain(Gen& g, Fn& F, int steps) {
  bool claims = F.f->provides_incremental_evaluation(); g.label(claims ? "claims" : "does-not-claim"); if (!claims) return;
  BV x = gen_point(g, F); double v = F.f->evaluate(x); REQUIRE(F.same(v, F.ref(x)) || !std::isfinite(v), "full-value", F.name);
  for (int s = 0; s < steps; s++) {
    auto f = gen_flips(g, F.n); hnco::sparse_bit_vector_t sp(f.begin(), f.end()); BV x0 = x; double w = 0;
    try { w = F.f->evaluate_incrementally(x, v, sp); } catch (std::runtime_error& e) { FAIL("claim-not-delivered", F.name << ": " << e.what()); }
    REQUIRE(x == x0 && std::equal(sp.begin(), sp.end(), f.begin()), "argument-changed", F.name);
    BV y = flipped(x, f); double full = F.f->evaluate(y), ref = F.ref(y); double tol = (1e-10 * F.scale + 1e-10 * std::fabs(ref)) * (1 + s);
    REQUIRE(F.exact ? w == full && w == ref : std::fabs(w - full) <= tol && std::fabs(w - ref) <= tol, "incremental", F.name << " x=" << pbt::show(x) << " flips=" << pbt::showv(f) << " incremental " << w << " full " << full << " definition " << ref << " step " << s);
    if (g.chance(1, 5)) { double w2 = F.f->evaluate_incrementally(x, v, sp); REQUIRE(w2 == w, "incremental-twice", F.name); }
    if (g.chance(2, 3)) { x = y; v = w; }
  }
}
PBT(plain, 60000, 600000) { seed(g); int n = gen_n(g, 1, 24); Fn F = gen_fn(g, n, g.chance(1, 6) ? ANY : INCR); g.note() << F.name; g.nontrivial(n > 2); chain(g, F, g.irange(1, 8)); }
PBT(stack, 60000, 600000) { seed(g); int n = gen_n(g, 1, 16); Keep keep; Fn F = gen_fn(g, n, g.chance(1, 4) ? ANY : INCR); int d = g.irange(1, 4); bool bad = g.chance(1, 5); for (int i = 0; i < d; i++) { int k = g.pick(std::vector<int>{W_OPP, W_COUNTER, W_BUDGET, W_TARGET, W_TRACKER}); if (bad) k = g.below(W_COUNT); wrap(g, F, keep, k); } g.note() << F.name; g.nontrivial(n > 2); chain(g, F, g.irange(1, 6)); }
PBT(long_chain, 600, 6000) { seed(g); int n = gen_n(g, 2, 40); Keep keep; Fn F = gen_fn(g, n, INCR); int d = g.irange(0, 3); for (int i = 0; i < d; i++) wrap(g, F, keep, g.pick(std::vector<int>{W_OPP, W_COUNTER, W_BUDGET, W_TARGET, W_TRACKER})); g.note() << F.name; g.nontrivial(); chain(g, F, 300); }
PBT(large, 3000, 30000) { seed(g); int n = g.irange(30, 200); Fn F = gen_fn(g, n, INCR); g.note() << F.name; g.nontrivial(); chain(g, F, g.irange(1, 10)); }
PBT(lattice, 40000, 400000) { seed(g); Fn F = make_kind(g, g.flag() ? K_ISING1 : K_ISING2, g.small(1, 12)); g.note() << F.name; g.nontrivial(F.n > 2); chain(g, F, g.irange(1, 5)); }
PBT(single_flips, 8000, 80000) { // every position, both directions
  seed(g); int n = gen_n(g, 1, 16); Keep keep; Fn F = gen_fn(g, n, INCR); if (g.flag()) wrap(g, F, keep, W_OPP); g.note() << F.name; g.nontrivial(n > 2); if (!F.f->provides_incremental_evaluation()) return; BV x = g.bits(n); double v = F.f->evaluate(x);
  for (int i = 0; i < n; i++) { hnco::sparse_bit_vector_t sp{i}; double w = F.f->evaluate_incrementally(x, v, sp), ref = F.ref(flipped(x, {i})); REQUIRE(pbt::close(w, ref, F.scale, 1e-10), "single-flip", F.name << " x=" << pbt::show(x) << " i=" << i << " " << w << " expected " << ref); } }
