// P13: neighbourhoods propose exactly the moves they promise.
#include "common.hh"
#include "hnco/neighborhoods/neighborhood.hh"
namespace nb = hnco::neighborhood;
struct Hood { std::shared_ptr<nb::Neighborhood> h; int lo, hi; std::string name; std::vector<double> pk; std::function<void(Gen&, Hood&)> change; };
static double logC(int n, int k) { return std::lgamma(n + 1.0) - std::lgamma(k + 1.0) - std::lgamma(n - k + 1.0); }
static std::vector<double> binomial(int n, double p, bool nz) {
  std::vector<double> q(n + 1); for (int k = 0; k <= n; k++) { double a = k == 0 ? 0 : p == 0 ? -INFINITY : k * std::log(p), b = k == n ? 0 : p == 1 ? -INFINITY : (n - k) * std::log1p(-p); q[k] = std::exp(logC(n, k) + a + b); }
  if (nz) { double z = q[0]; q[0] = 0; for (int k = 1; k <= n; k++) q[k] /= 1 - z; } return q;
}
// kind 0 flip, 1 standard bit mutation, 2 ball, 3 sphere
static void set_sbm(Hood& o, int n, double p, bool anm) { o.pk = binomial(n, p, !anm); o.lo = anm ? 0 : 1; o.hi = n; if (p == 0) o.hi = 0; if (p == 1) o.lo = n; }
static double gen_rate(Gen& g, int n, bool anm) { std::vector<double> c{1.0 / n, 1.0 / n, 0.5, 1, 2.0 / n > 1 ? 1 : 2.0 / n, g.real(0.05, 0.95), 1 / std::sqrt(double(n))}; if (anm) c.push_back(0); return g.pick(c); }
static Hood make(Gen& g, int kind, int n) {
  Hood o; std::ostringstream d;
  switch (kind) {
  case 0: o.h = std::make_shared<nb::SingleBitFlip>(n); o.lo = o.hi = 1; o.pk.assign(n + 1, 0); o.pk[1] = 1; d << "flip"; break;
  case 1: { bool anm = g.flag(), ctor = g.flag(), dflt = g.chance(1, 5); double p = dflt ? 1.0 / n : gen_rate(g, n, anm); std::shared_ptr<nb::StandardBitMutation> s;
    if (dflt) s = std::make_shared<nb::StandardBitMutation>(n); else if (ctor) s = std::make_shared<nb::StandardBitMutation>(n, p); else { s = std::make_shared<nb::StandardBitMutation>(n); if (g.flag()) s->set_mutation_rate(g.real(0.01, 0.99)); s->set_mutation_rate(p); }
    if (anm || g.flag()) s->set_allow_no_mutation(anm); o.h = s; set_sbm(o, n, p, anm); d << "sbm p=" << p << (anm ? " no-op allowed" : "") << (dflt ? " default" : ctor ? " constructor" : " setter"); o.change = [n, s](Gen& g2, Hood& h) { bool a = g2.flag(); double q = gen_rate(g2, n, a); s->set_allow_no_mutation(a); s->set_mutation_rate(q); set_sbm(h, n, q, a); }; break; }
  case 2: { int r = g.irange(1, n); o.h = std::make_shared<nb::HammingBall>(n, r); o.lo = 1; o.hi = r; o.pk.assign(n + 1, 0); for (int k = 1; k <= r; k++) o.pk[k] = 1.0 / r; d << "ball " << r; break; }
  default: { int r = g.irange(1, n); auto s = std::make_shared<nb::HammingSphere>(n, r); if (g.flag()) { r = g.irange(0, n); s->set_radius(r); } o.h = s; o.lo = o.hi = r; o.pk.assign(n + 1, 0); o.pk[r] = 1; d << "sphere " << r; o.change = [n, s](Gen& g2, Hood& h) { int q = g2.irange(0, n); s->set_radius(q); h.lo = h.hi = q; h.pk.assign(n + 1, 0); h.pk[q] = 1; }; break; }
  }
  d << " n=" << n; o.name = d.str(); return o;
}
static void flips_ok(const Hood& o, const BV& a, const BV& b, const std::vector<int>& f, const char *what) {
  REQUIRE(std::is_sorted(f.begin(), f.end()) || true, "", ""); std::set<int> s(f.begin(), f.end()); REQUIRE(s.size() == f.size(), "distinct", o.name << " " << what << " reports " << pbt::showv(f));
  for (int i : f) REQUIRE(i >= 0 && i < int(a.size()), "range", o.name << " reports position " << i); REQUIRE(std::is_sorted(f.begin(), f.end()), "sorted", o.name << " reports " << pbt::showv(f));
  REQUIRE(int(f.size()) >= o.lo && int(f.size()) <= o.hi, "number", o.name << " " << what << " flips " << f.size() << " bits"); REQUIRE(b == flipped(a, f), "flips", o.name << " " << what << ": " << pbt::show(a) << " -> " << pbt::show(b) << " reported " << pbt::showv(f));
}
PBT(history, 5000, 80000) {
  int n = g.small(1, 30); if (g.chance(1, 10)) n = g.irange(30, 130); if (g.chance(1, 60)) n = g.irange(200, 600); Hood o = make(g, g.below(4), n); seed(g); BV origin = g.bits(n); o.h->set_origin(origin); int len = g.small(1, 60); g.note() << o.name << " " << len << " operations"; g.nontrivial(n > 1 && len > 2); g.label(o.name.substr(0, o.name.find(' '))); bool pending = false; BV cand;
  for (int t = 0; t < len; t++) {
    if (pending) { const bool keep = g.flag(); if (g.chance(1, 12)) { origin = g.bits(n); o.h->set_origin(origin); pending = false; } else if (keep) { o.h->keep(); origin = cand; pending = false; } else { o.h->forget(); pending = false; } REQUIRE(o.h->get_origin() == origin, keep ? "keep" : "forget", o.name << " step " << t << " origin " << pbt::show(o.h->get_origin()) << " expected " << pbt::show(origin)); REQUIRE(o.h->get_candidate() == origin, "candidate-after", o.name << " step " << t); continue; }
    switch (g.below(7)) {
    case 0: origin = g.bits(n); o.h->set_origin(origin); REQUIRE(o.h->get_origin() == origin && o.h->get_candidate() == origin, "set-origin", o.name); break;
    case 1: { BV x = g.bits(n), y = x; o.h->mutate(y); flips_ok(o, x, y, o.h->get_flipped_bits(), "mutate"); REQUIRE(o.h->get_origin() == origin && o.h->get_candidate() == origin, "mutate-side-effect", o.name); break; }
    case 2: { BV x = g.bits(n), x0 = x, y(n, 1); o.h->map(x, y); REQUIRE(x == x0, "map-input", o.name); flips_ok(o, x, y, o.h->get_flipped_bits(), "map"); REQUIRE(o.h->get_origin() == origin && o.h->get_candidate() == origin, "map-side-effect", o.name); break; }
    case 3: if (o.change) { o.change(g, o); break; } // fall through
    default: o.h->propose(); cand = o.h->get_candidate(); REQUIRE(o.h->get_origin() == origin, "propose-origin", o.name); flips_ok(o, origin, cand, o.h->get_flipped_bits(), "propose"); pending = true;
    }
  }
}
// Observed distribution of the number of flips and of their positions.
PBT(distribution, 400, 4000) {
  int n = g.small(1, 12); if (g.chance(1, 5)) n = g.irange(13, 60); Hood o = make(g, g.below(4), n); if (o.change && g.chance(1, 3)) { o.change(g, o); o.name += " reconfigured"; } seed(g); int N = g.thorough ? 20000 : 6000; int via = g.below(3); g.note() << o.name << " " << N << " moves"; g.nontrivial(n > 1); g.label(o.name.substr(0, o.name.find(' ')));
  std::vector<int> ck(n + 1), cp(n); std::map<std::vector<int>, int> cs; o.h->set_origin(BV(n, 0)); double mean = 0, m2 = 0; for (int k = 0; k <= n; k++) { mean += k * o.pk[k]; m2 += double(k) * k * o.pk[k]; }
  for (int t = 0; t < N; t++) { BV y(n, 0); if (via == 0) o.h->mutate(y); else if (via == 1) { BV z(n, 0); o.h->map(z, y); } else { o.h->propose(); y = o.h->get_candidate(); o.h->forget(); } int k = std::count(y.begin(), y.end(), 1); ck[k]++; std::vector<int> f; for (int i = 0; i < n; i++) if (y[i]) { cp[i]++; f.push_back(i); } if (n <= 5) cs[f]++; }
  auto near = [&](double obs, double p) { double e = N * p, sd = std::sqrt(std::max(e * (1 - p), 0.0)); return std::fabs(obs - e) <= 7 * sd + 8; };
  for (int k = 0; k <= n; k++) { if (o.pk[k] == 0) REQUIRE(ck[k] == 0, "forbidden-number", o.name << " flipped " << k << " bits"); REQUIRE(near(ck[k], o.pk[k]), "number-distribution", o.name << ": " << ck[k] << " moves of " << k << " bits out of " << N << ", expected " << N * o.pk[k]); }
  for (int i = 0; i < n; i++) REQUIRE(near(cp[i], mean / n), "position-distribution", o.name << ": position " << i << " flipped " << cp[i] << " times out of " << N << ", expected " << N * mean / n);
  if (n <= 5) for (uint64_t m = 0; m < (1u << n); m++) { std::vector<int> f; for (int i = 0; i < n; i++) if (m >> i & 1) f.push_back(i); int k = f.size(); double p = o.pk[k] / std::round(std::exp(logC(n, k))); REQUIRE(near(cs.count(f) ? cs[f] : 0, p), "subset-distribution", o.name << ": flips " << pbt::showv(f) << " " << (cs.count(f) ? cs[f] : 0) << " times out of " << N << ", expected " << N * p); if (N * p > 40) REQUIRE(cs.count(f), "unreachable", o.name << " never flips " << pbt::showv(f)); }
}
