// P14: enumerators visit every element exactly once.
#include "common.hh"
#include "hnco/iterator.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
namespace nb = hnco::neighborhood;
static uint64_t to_int(const BV& x) { uint64_t v = 0; for (size_t i = 0; i < x.size(); i++) v |= uint64_t(x[i]) << i; return v; }
static double choose(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::round(r); }
template<class I> static void hypercube(Gen& g, bool extended) {
  int n = g.irange(extended ? 0 : 1, 9); if (g.chance(1, 12)) n = g.irange(10, 14); if (!extended && g.chance(1, 15)) n = 0; I it(n); int passes = g.irange(1, 3); bool first = true; g.note() << (extended ? "extended " : "") << "hypercube n=" << n << " passes " << passes; g.nontrivial(n > 1);
  for (int p = 0; p < passes; p++) {
    if (!first || g.flag()) it.init(); first = false; uint64_t total = (n == 0 && !extended) ? 0 : 1ULL << n, want = (p + 1 < passes && g.flag()) ? g.below(total + 1) : total; std::vector<bool> seen(1ULL << n);
    for (uint64_t t = 0; t < want; t++) { if (g.chance(1, 8)) it.has_next(); REQUIRE(it.has_next(), "early-end", "n=" << n << " after " << t << " elements"); const BV& x = it.next(); REQUIRE(int(x.size()) == n && valid(x), "shape", pbt::show(x)); uint64_t v = to_int(x); REQUIRE(!seen[v], "repeated", pbt::show(x) << " pass " << p); seen[v] = true; }
    if (want == total) { REQUIRE(!it.has_next(), "late-end", "n=" << n << " pass " << p); REQUIRE(!it.has_next(), "late-end", "n=" << n); }
  }
}
PBT(hypercube_iterator, 2500, 20000) { hypercube<hnco::HypercubeIterator>(g, false); }
PBT(extended_hypercube_iterator, 1500, 12000) { hypercube<hnco::ExtendedHypercubeIterator>(g, true); }
static void hood(Gen& g, nb::NeighborhoodIterator& it, int n, int r, const std::string& name) {
  int passes = g.irange(1, 5); g.note() << name << " n=" << n << " r=" << r << " passes " << passes; g.nontrivial(n > 1);
  BV last; bool complete = false;
  for (int p = 0; p < passes; p++) {
    BV o = g.bits(n); if (p > 0 && g.chance(1, 4)) o = last.size() ? last : o; uint64_t total = uint64_t(choose(n, r)); if (r == 0 || n == 0) total = 0;
    if (g.flag()) { it.set_origin(o); it.init(); } else { it.init(); it.set_origin(o); } if (g.chance(1, 6)) { it.init(); it.set_origin(o); }
    uint64_t want = g.chance(1, 3) && p + 1 < passes ? g.below(total + 1) : total; std::set<BV> seen; if (want > 6000) want = 6000;
    for (uint64_t t = 0; t < want; t++) { REQUIRE(it.has_next(), "early-end", name << " n=" << n << " r=" << r << " pass " << p << " after " << t << " of " << total); const BV& x = it.next(); REQUIRE(int(x.size()) == n && valid(x), "shape", pbt::show(x)); int d = 0; for (int i = 0; i < n; i++) d += x[i] != o[i]; REQUIRE(d == r, "distance", name << " n=" << n << " pass " << p << ": " << pbt::show(x) << " is at distance " << d << " of " << pbt::show(o) << " instead of " << r); REQUIRE(seen.insert(x).second, "repeated", name << " n=" << n << " pass " << p << " " << pbt::show(x)); last = x; }
    if (want == total) { REQUIRE(!it.has_next(), "late-end", name << " n=" << n << " r=" << r << " pass " << p); complete = true; }
  }
  if (complete) g.label("complete");
}
PBT(single_bit_flip_iterator, 2500, 25000) { int n = g.small(1, 80); if (g.chance(1, 12)) n = g.irange(81, 600); nb::SingleBitFlipIterator it(n); hood(g, it, n, 1, "flip"); }
PBT(hamming_sphere_iterator, 4000, 50000) { int n = g.small(1, 12); if (g.chance(1, 10)) n = g.irange(13, 70); if (g.chance(1, 60)) n = g.irange(71, 400); int r = g.irange(0, n <= 12 ? n : n > 70 ? 2 : 3); if (n > 12 && g.chance(1, 4)) r = n - g.irange(0, n > 70 ? 1 : 2); nb::HammingSphereIterator it(n, r); hood(g, it, n, r, "sphere"); }
