// P03: a declared maximum is the maximum.
#include "stack.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
using namespace cat;
static void scan(Fn& F) {
  bool known = F.f->has_known_maximum(); double m = 0; bool thrown = false; try { m = F.f->get_maximum(); } catch (std::runtime_error&) { thrown = true; }
  if (known) REQUIRE(!thrown, "declared-but-refused", F.name);
  double best = -std::numeric_limits<double>::infinity(), real = best; BV arg; for (uint64_t v = 0; v < (1ULL << F.n); v++) { BV x = from_int(v, F.n); double y = F.f->evaluate(x); if (y > best) { best = y; arg = x; } real = std::max(real, F.ref(x)); }
  if (!thrown) { double tol = F.exact ? 0 : 1e-10 * (F.scale + std::fabs(m)); REQUIRE(std::fabs(m - best) <= tol, "maximum", F.name << " declares " << m << " but the maximum over all points is " << best << " at " << pbt::show(arg)); REQUIRE(std::fabs(m - real) <= tol, "maximum-of-definition", F.name << " " << m << " " << real); }
}
PBT(plain, 12000, 120000) { seed(g); int n = g.chance(1, 6) ? 9 : gen_n(g, 1, 10); Fn F = gen_fn(g, n, g.chance(1, 6) ? ANY : MAX); g.label(F.f->has_known_maximum() ? "declared" : "undeclared"); g.note() << F.name; g.nontrivial(n > 2); scan(F); }
PBT(declares, 20000, 200000) { // the documented ones do declare
  seed(g); int n = gen_n(g, 1, 24); Fn F = gen_fn(g, n, MAX); g.note() << F.name; g.nontrivial(n > 2); REQUIRE(F.f->has_known_maximum(), "not-declared", F.name); double m = F.f->get_maximum(); for (int t = 0; t < 5; t++) { BV x = gen_point(g, F); double v = F.f->evaluate(x); REQUIRE(v <= m + (F.exact ? 0 : 1e-10 * (F.scale + std::fabs(m))), "exceeded", F.name << " " << pbt::show(x) << " value " << v << " declared " << m); } }
PBT(stack, 25000, 250000) { seed(g); int n = gen_n(g, 1, 7); Keep keep; Fn F = gen_fn(g, n, g.chance(1, 5) ? ANY : MAX); int d = g.irange(1, 4); bool ctl = g.chance(1, 4); for (int i = 0; i < d; i++) { int k = ctl ? W_COUNTER + g.below(W_COUNT - W_COUNTER) : g.below(W_COUNT); if (k == W_MAP && F.n > 7) k = W_CACHE; wrap(g, F, keep, k, true); } g.label(F.f->has_known_maximum() ? "declared" : "undeclared"); g.note() << F.name; g.nontrivial(F.n > 2); scan(F); }
PBT(map_composition, 20000, 200000) { seed(g); int n = gen_n(g, 1, 7); Keep keep; Fn F = gen_fn(g, n, MAX); int d = g.irange(1, 2); for (int i = 0; i < d; i++) if (F.n <= 7) wrap(g, F, keep, W_MAP, true); g.label(F.f->has_known_maximum() ? "declared" : "undeclared"); g.note() << F.name; g.nontrivial(F.n > 2); if (F.max) REQUIRE(F.f->has_known_maximum(), "declaration-dropped", F.name); scan(F); }
// beyond enumeration: attained at a known maximiser and not exceeded around it
PBT(large, 20000, 200000) {
  seed(g); int n = g.chance(1, 6) ? 9 * g.irange(1, 14) : g.chance(1, 40) ? g.pick(std::vector<int>{256, 512, 9 * g.irange(15, 40), g.irange(129, 400)}) : gen_n(g, 8, 128); std::vector<int> ks; for (int k = 0; k < K_COUNT; k++) if (k_max(k) && feasible(k, n)) ks.push_back(k); int k = g.pick(ks); Fn F = make_kind(g, k, n); g.note() << F.name; g.nontrivial(); BV top(n, 1);
  if (k == K_CANC || k == K_SINCANC) top = BV(n, 0); else if (k == K_LIN || k == K_WALSH1) top = F.hint; else if (k == K_LONG) { auto p = long_path(n, std::atoi(F.name.c_str() + F.name.find('(') + 1)); top = p.back(); }
  else if (k == K_FOUR || k == K_SIX) { int t = std::atoi(F.name.c_str() + F.name.find('(') + 1); top = BV(n, 0); std::fill(top.begin(), top.end() - (t + 1), 1); }
  double m = F.f->get_maximum(), tol = F.exact ? 0 : 1e-10 * (F.scale + std::fabs(m)); REQUIRE(std::fabs(F.f->evaluate(top) - m) <= tol, "not-attained", F.name << " at " << pbt::show(top) << ": " << F.f->evaluate(top) << " declared " << m);
  for (int t = 0; t < 10; t++) { BV x = t < 7 ? gen_near(g, top) : g.bits(n); REQUIRE(F.f->evaluate(x) <= m + tol, "exceeded", F.name << " " << pbt::show(x)); }
  for (int i = 0; i < n; i++) REQUIRE(F.f->evaluate(flipped(top, {i})) <= m + tol, "exceeded", F.name);
}
PBT(prior_noise_bound, 4000, 40000) { seed(g); int n = gen_n(g, 2, 16); Fn F = gen_fn(g, n, MAX); hnco::neighborhood::HammingBall nh(n, g.irange(1, n)); PriorNoise p(F.f.get(), &nh); g.note() << "prior noise " << F.name; g.nontrivial(n > 2); if (!p.has_known_maximum()) return; double m = p.get_maximum(); for (int t = 0; t < 10; t++) { BV x = F.hint.empty() ? BV(n, 1) : F.hint; if (t & 1) x = gen_near(g, x); REQUIRE(p.evaluate(x) <= m + (F.exact ? 0 : 1e-10 * (F.scale + std::fabs(m))), "exceeded", F.name); } }
PBT(stop_on_maximum, 8000, 80000) { // the target used for stopping is the declared maximum
  seed(g); int n = gen_n(g, 1, 8); Fn F = gen_fn(g, n, MAX); if (!F.exact) { F = make_kind(g, K_ONEMAX, n); } StopOnMaximum s(F.f.get()); double m = F.f->get_maximum(); g.note() << F.name; g.nontrivial(n > 2); for (uint64_t v = 0; v < (1u << n); v++) { BV x = from_int(v, n); bool t = false; try { s.evaluate(x); } catch (hnco::exception::TargetReached&) { t = true; REQUIRE(s.get_trigger().first == x && s.get_trigger().second == m, "trigger", F.name); } REQUIRE(t == (F.ref(x) == m), "stop-on-maximum", F.name << " " << pbt::show(x)); } }
PBT(is_globally_maximal, 8000, 80000) { // the test offered to users
  seed(g); int n = gen_n(g, 1, 9); Fn F = gen_fn(g, n, MAX); g.note() << F.name; g.nontrivial(n > 2); if (!F.exact || !F.f->has_known_maximum()) return; double m = -std::numeric_limits<double>::infinity(); for (uint64_t v = 0; v < (1ULL << n); v++) m = std::max(m, F.ref(from_int(v, n)));
  for (int t = 0; t < 6; t++) { BV x = F.hint.empty() || g.flag() ? g.bits(n) : F.hint; if (g.flag()) x = gen_near(g, x); bool want = F.ref(x) == m; g.label(want ? "maximal" : "other"); REQUIRE(hnco::function::bv_is_globally_maximal(x, *F.f) == want, "globally-maximal", F.name << " " << pbt::show(x) << " value " << F.ref(x) << " maximum " << m); }
}

PBT(long_path, 4000, 40000) { // long paths beyond the precision of floating-point numbers
  int k = g.irange(2, 12), m = g.irange(1, 70); if (g.flag()) m = g.irange(44, 56); int n = k * m; LongPath f(n, k); unsigned __int128 L = long_path_length(k, m); bool known = f.has_known_maximum(); g.note() << "LongPath n=" << n << " k=" << k; g.nontrivial(m > 1); g.label(known ? "known" : "unknown");
  if (L <= (1ULL << 50)) REQUIRE(known, "not-declared", "LongPath n=" << n << " k=" << k); if (!known) { bool thrown = false; try { f.get_maximum(); } catch (std::runtime_error&) { thrown = true; } REQUIRE(thrown, "undeclared-maximum", ""); return; }
  double d = f.get_maximum(); REQUIRE((unsigned __int128)d == L, "maximum", "declared " << d << " for a path of " << double(L) << " points (not the same integer), n=" << n << " k=" << k); double v = f.evaluate(long_path_point(k, m, L - 1)); REQUIRE(v == d, "attained", "end of the path has value " << v << ", declared " << d);
}
