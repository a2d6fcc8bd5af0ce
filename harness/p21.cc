// P21: Walsh analysis is exact and invertible.
#include "functions.hh"
using namespace cat;
// A function given by a table; counts how often each point is evaluated
struct Table: Function {
  int n; W t; std::vector<int> seen; Table(int n_, W t_): n(n_), t(t_), seen(t_.size(), 0) {}
  int get_bv_size() const override { return n; }
  double evaluate(const BV& x) override { REQUIRE(int(x.size()) == n && valid(x), "point", pbt::show(x)); uint64_t v = 0; for (int i = 0; i < n; i++) v |= uint64_t(x[i]) << i; seen[v]++; return t[v]; }
};
struct Counted: Function { Function *f; std::map<BV, int> seen; Counted(Function *f_): f(f_) {} int get_bv_size() const override { return f->get_bv_size(); } double evaluate(const BV& x) override { seen[x]++; return f->evaluate(x); } };
static std::vector<long double> wht(const W& t) { std::vector<long double> a(t.begin(), t.end()); for (size_t h = 1; h < a.size(); h *= 2) for (size_t i = 0; i < a.size(); i += 2 * h) for (size_t j = i; j < i + h; j++) { auto x = a[j], y = a[j + h]; a[j] = x + y; a[j + h] = x - y; } return a; }
static W table_of(const std::function<double(const BV&)>& f, int n) { W t(1ULL << n); for (uint64_t v = 0; v < t.size(); v++) t[v] = f(from_int(v, n)); return t; }
static W gen_table(Gen& g, int n, bool& exact, std::string& name) {
  W t(1ULL << n, 0.0); exact = true; int kind = g.below(9);
  switch (kind) {
  case 0: for (auto& v : t) v = double(g.range(-3, 3)); name = "small-integers"; break;
  case 1: for (auto& v : t) v = double(g.range(-1000000, 1000000)); name = "integers"; break;
  case 2: for (auto& v : t) v = g.chance(1, 8) ? double(g.range(-5, 5)) : 0; name = "sparse"; break;
  case 3: { double c = double(g.range(-2, 2)); for (auto& v : t) v = c; name = "constant"; break; }
  case 4: t[g.below(t.size())] = double(g.range(1, 9)); name = "spike"; break;
  case 5: { int m = g.irange(1, 3); for (int i = 0; i < m; i++) { uint64_t u = g.below(t.size()); double c = double(g.range(-4, 4)); for (uint64_t v = 0; v < t.size(); v++) t[v] += __builtin_parityll(u & v) ? -c : c; } name = "few-parities"; break; }
  case 6: for (auto& v : t) v = g.real(-1, 1); exact = false; name = "reals"; break;
  case 7: for (auto& v : t) v = g.weight(); exact = false; name = "weights"; break;
  default: { std::vector<int> lv = gen_subset(g, n, g.irange(0, n)); std::map<uint64_t, double> c; for (uint64_t v = 0; v < t.size(); v++) { uint64_t k = 0; for (size_t j = 0; j < lv.size(); j++) k |= ((v >> lv[j]) & 1) << j; if (!c.count(k)) c[k] = double(g.range(-9, 9)); t[v] = c[k]; } name = "few-variables"; break; }
  }
  if (exact && g.chance(1, 4)) { int e = g.pick(std::vector<int>{-60, -40, -20, 30, 200, -300}); for (auto& v : t) v = std::ldexp(v, e); name += "*2^" + std::to_string(e); }
  return t;
}
// Terms, checked for form, as coefficients by index
static W coefficients(const std::vector<WalshTerm>& terms, int n, const char *who) {
  W c(1ULL << n, 0.0); std::vector<char> have(c.size(), 0);
  for (auto& t : terms) { REQUIRE(int(t.feature.size()) == n, "feature-size", who << " " << t.feature.size()); uint64_t u = 0; for (int i = 0; i < n; i++) u |= uint64_t(t.feature[i]) << i; REQUIRE(!have[u], "duplicate-term", who << " " << u); have[u] = 1; REQUIRE(t.coefficient != 0, "zero-term", who << " " << u); c[u] = t.coefficient; }
  return c;
}
static void compare(const W& c, const std::vector<long double>& ref, bool exact, double scale, const char *who) {
  for (size_t u = 0; u < c.size(); u++) { if (exact) REQUIRE(c[u] == double(ref[u]), "coefficient", who << " feature " << u << ": " << c[u] << " but the sum is " << double(ref[u])); else REQUIRE(std::fabs(c[u] - double(ref[u])) <= 1e-11 * scale, "coefficient", who << " feature " << u << ": " << c[u] << " but the sum is " << double(ref[u]) << " (scale " << scale << ")"); }
}
static std::vector<WalshTerm> junk(Gen& g) { std::vector<WalshTerm> r(g.chance(1, 3) ? g.irange(1, 5) : 0); for (auto& t : r) { BV b = g.rawbits(g.irange(0, 9)); t.feature.assign(b.begin(), b.end()); t.coefficient = g.weight(); } return r; }
static void rebuild(Gen& g, std::vector<WalshTerm> terms, const W& t, int n, double scale, const char *who) {
  if (terms.empty()) return; for (auto& x : terms) x.coefficient = std::ldexp(x.coefficient, -n);
  if (g.flag()) for (size_t i = terms.size() - 1; i > 0; i--) std::swap(terms[i], terms[g.below(i + 1)]);
  WalshExpansion e; if (g.chance(1, 4)) e.random(g.irange(1, 5), g.irange(1, 5)); e.set_terms(terms); REQUIRE(e.get_bv_size() == n, "expansion-size", e.get_bv_size());
  for (uint64_t v = 0; v < t.size(); v++) { BV x = from_int(v, n); double y = e.evaluate(x); REQUIRE(std::fabs(y - t[v]) <= 1e-11 * scale, "not-reproduced", who << " at " << pbt::show(x) << ": expansion " << y << ", function " << t[v]); }
}
PBT(table, 20000, 200000) { // arbitrary functions, both algorithms
  seed(g); int n = g.chance(1, 10) ? g.irange(7, 8) : g.small(1, 6); bool exact; std::string name; W t = gen_table(g, n, exact, name); g.note() << name << " n=" << n << (n <= 4 ? " " + pbt::showv(t) : ""); g.label(name); g.nontrivial(n > 1 && *std::min_element(t.begin(), t.end()) < *std::max_element(t.begin(), t.end()));
  double scale = sumabs(t) + 1e-300; auto ref = wht(t); std::vector<WalshTerm> a = junk(g), b = junk(g);
  Table f(n, t); compute_walsh_transform(&f, a); for (int c : f.seen) REQUIRE(c == 1, "evaluations", "direct: a point evaluated " << c << " times"); compare(coefficients(a, n, "direct"), ref, exact, scale, "direct");
  Table h(n, t); compute_fast_walsh_transform(&h, b); for (int c : h.seen) REQUIRE(c == 1, "evaluations", "fast: a point evaluated " << c << " times"); compare(coefficients(b, n, "fast"), ref, exact, scale, "fast");
  if (exact) { REQUIRE(a.size() == b.size(), "number-of-terms", a.size() << " and " << b.size()); size_t nz = 0; for (auto v : ref) nz += v != 0; REQUIRE(a.size() == nz, "number-of-terms", a.size() << " terms, " << nz << " nonzero sums"); }
  rebuild(g, a, t, n, scale, "direct"); rebuild(g, b, t, n, scale, "fast");
}
PBT(fast_large, 300, 3000) { int n = g.irange(9, g.thorough ? 14 : 12); seed(g); bool exact; std::string name; W t = gen_table(g, n, exact, name); g.note() << name << " n=" << n; g.label(name); g.nontrivial(); Table f(n, t); std::vector<WalshTerm> b = junk(g); compute_fast_walsh_transform(&f, b); for (int c : f.seen) REQUIRE(c == 1, "evaluations", c); compare(coefficients(b, n, "fast"), wht(t), exact, sumabs(t) + 1e-300, "fast"); }
PBT(library, 12000, 120000) { // functions of the library
  seed(g); int n = gen_n(g, 1, 7); if (g.chance(1, 10)) n = 9; Fn F = gen_fn(g, n); g.note() << F.name; g.nontrivial(n > 1); W t = table_of(F.ref, n); for (double v : t) if (!std::isfinite(v)) throw pbt::Discard{}; bool exact = F.exact; for (double v : t) exact = exact && v == std::rint(v) && std::fabs(v) < 1e12;
  double scale = sumabs(t) + F.scale * t.size() + 1e-300; auto ref = wht(t); std::vector<WalshTerm> a, b; Counted cf(F.f.get()); bool slow = n <= 6; if (slow) compute_walsh_transform(F.f.get(), a); compute_fast_walsh_transform(&cf, b); REQUIRE(cf.seen.size() == t.size(), "evaluations", cf.seen.size());
  if (slow) compare(coefficients(a, n, "direct"), ref, exact, scale, "direct"); compare(coefficients(b, n, "fast"), ref, exact, scale, "fast"); rebuild(g, b, t, n, scale, "fast");
}
// Special expansions against the general one with the same coefficients
struct Terms { int n; std::map<std::vector<bool>, double> m; void add(std::vector<int> ix, double c) { std::vector<bool> f(n, false); for (int i : ix) f[i] = !f[i]; m[f] += c; } std::vector<WalshTerm> list(Gen& g) { std::vector<WalshTerm> r; for (auto& e : m) r.push_back({e.first, e.second}); for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[g.below(i)]); return r; } };
PBT(special, 30000, 300000) {
  seed(g); int n = g.chance(1, 5) ? g.irange(8, 60) : g.irange(1, 7); Terms T; T.n = n; FP f; double scale = 0; std::string name; int kind = g.below(7);
  if (kind == 0) { W w = gen_w(g, n); auto p = new WalshExpansion1; f.reset(p); p->generate(n, Feed(w)); for (int i = 0; i < n; i++) T.add({i}, w[i]); name = "Walsh1"; }
  else if (kind == 1) { W a = gen_w(g, n), q = gen_w(g, n * (n - 1) / 2); auto p = new WalshExpansion2; f.reset(p); if (g.chance(1, 4)) p->random(g.small(1, 8)); p->generate(n, Feed(a), Feed(q)); size_t k = 0; for (int i = 0; i < n; i++) T.add({i}, a[i]); for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) T.add({i, j}, q[k++]); name = "Walsh2"; }
  else if (kind == 2) { W c = gen_w(g, n), h = gen_w(g, n); bool per = g.flag(); auto p = new NearestNeighborIsingModel1; f.reset(p); p->generate(n, Feed(c), Feed(h));
    p->set_periodic_boundary_conditions(per); for (int i = 0; i < n; i++) { T.add({i}, h[i]); if (i + 1 < n) T.add({i, i + 1}, c[i]); else if (per) T.add({i, 0}, c[i]); } name = per ? "Ising1 periodic" : "Ising1"; }
  else if (kind == 3) { std::vector<int> ds; for (int t = 1; t <= n; t++) if (n % t == 0) ds.push_back(t); int R = g.pick(ds), C = n / R; W c = gen_w(g, 2 * n), h = gen_w(g, n); bool per = g.flag(); auto p = new NearestNeighborIsingModel2; f.reset(p); p->generate(R, C, Feed(c), Feed(h)); p->set_periodic_boundary_conditions(per);
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int s = i * C + j; T.add({s}, h[s]); if (j + 1 < C) T.add({s, s + 1}, c[2 * s]); else if (per) T.add({s, i * C}, c[2 * s]); if (i + 1 < R) T.add({s, s + C}, c[2 * s + 1]); else if (per) T.add({s, j}, c[2 * s + 1]); } name = per ? "Ising2 periodic" : "Ising2"; }
  else if (kind == 4) { W w = gen_w(g, n); auto p = new LinearFunction; f.reset(p); p->generate(n, Feed(w)); for (int i = 0; i < n; i++) { T.add({}, w[i] / 2); T.add({i}, -w[i] / 2); } name = "Linear"; }
  else { double al = g.real(0, 3); bool per = kind == 6; auto p = new WalshExpansion2; f.reset(p); if (g.chance(1, 3)) p->random(g.small(1, 8)); if (per) p->generate_ising1_long_range_periodic(n, al); else p->generate_ising1_long_range(n, al); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { int d = i - j; if (per) d = std::min(d, n - d); T.add({i, j}, std::pow(double(d), -al)); } if (T.m.empty()) T.add({}, 0); name = per ? "long range periodic" : "long range"; }
  for (auto& e : T.m) scale += std::fabs(e.second); g.label(name); g.note() << name << " n=" << n; g.nontrivial(n > 1); REQUIRE(f->get_bv_size() == n, "size", f->get_bv_size());
  WalshExpansion e; e.set_terms(T.list(g)); int k = n <= 7 ? 1 << n : 60; for (int v = 0; v < k; v++) { BV x = n <= 7 ? from_int(v, n) : g.bits(n); double a = f->evaluate(x), b = e.evaluate(x); REQUIRE(std::fabs(a - b) <= 1e-10 * (scale + 1e-300), "expansions-differ", name << " at " << pbt::show(x) << ": " << a << ", general expansion " << b); }
  if (n <= 6) { std::vector<WalshTerm> t; compute_fast_walsh_transform(f.get(), t); W c = coefficients(t, n, "fast"); for (uint64_t u = 0; u < c.size(); u++) { std::vector<bool> ft(n); for (int i = 0; i < n; i++) ft[i] = (u >> i) & 1; auto it = T.m.find(ft); double want = it == T.m.end() ? 0 : it->second; REQUIRE(std::fabs(std::ldexp(c[u], -n) - want) <= 1e-10 * (scale + 1e-300), "transform-of-special", name << " feature " << u << ": " << std::ldexp(c[u], -n) << " but the coefficient is " << want); } }
}
PBT(expansion, 30000, 300000) { // general expansion against the formula, repeated features, any order; and back through the transform
  seed(g); int n = g.chance(1, 4) ? g.irange(8, 120) : g.irange(1, 7); int m = g.small(1, 30); W w = gen_w(g, m); std::vector<WalshTerm> t(m); std::vector<BV> u(m); for (int i = 0; i < m; i++) { u[i] = i && g.chance(1, 6) ? u[g.below(i)] : g.bits(n); t[i].feature.assign(u[i].begin(), u[i].end()); t[i].coefficient = w[i]; }
  WalshExpansion e; if (g.chance(1, 3)) e.random(g.irange(1, 9), g.irange(1, 9)); e.set_terms(t); g.note() << "n=" << n << " terms=" << m; g.nontrivial(n > 1 && m > 1); double scale = sumabs(w) + 1e-300;
  int k = n <= 6 ? 1 << n : 40; for (int v = 0; v < k; v++) { BV x = n <= 6 ? from_int(v, n) : g.bits(n); long double s = 0; for (int i = 0; i < m; i++) { int p = 0; for (int j = 0; j < n; j++) p ^= u[i][j] & x[j]; s += p ? -w[i] : w[i]; } double y = e.evaluate(x); REQUIRE(std::fabs(y - double(s)) <= 1e-12 * scale, "expansion-value", pbt::show(x) << " " << y << " " << double(s)); }
  if (n <= 6) { std::map<BV, double> sum; for (int i = 0; i < m; i++) sum[u[i]] += w[i]; std::vector<WalshTerm> a = junk(g), b = junk(g); compute_walsh_transform(&e, a); compute_fast_walsh_transform(&e, b); W ca = coefficients(a, n, "direct"), cb = coefficients(b, n, "fast"); for (uint64_t v = 0; v < ca.size(); v++) { auto it = sum.find(from_int(v, n)); double want = it == sum.end() ? 0 : it->second; REQUIRE(std::fabs(std::ldexp(ca[v], -n) - want) <= 1e-11 * scale, "not-inverse", "direct, feature " << v << ": " << std::ldexp(ca[v], -n) << " " << want); REQUIRE(std::fabs(std::ldexp(cb[v], -n) - want) <= 1e-11 * scale, "not-inverse", "fast, feature " << v << ": " << std::ldexp(cb[v], -n) << " " << want); } }
}
PBT(generated, 10000, 100000) { // instance generators: as many terms as asked, coefficients from the generator in order
  seed(g); int n = g.irange(1, 7), m = g.small(1, 12); W w = gen_w(g, m); WalshExpansion e; if (g.flag()) e.random(g.irange(1, 9), g.irange(1, 20)); e.generate(n, m, Feed(w)); g.note() << "n=" << n << " m=" << m << " " << pbt::showv(w); g.nontrivial(m > 1); REQUIRE(e.get_bv_size() == n, "size", e.get_bv_size());
  double s = 0; for (double v : w) s += v; REQUIRE(std::fabs(e.evaluate(BV(n, 0)) - s) <= 1e-12 * (sumabs(w) + 1e-300), "at-zero", e.evaluate(BV(n, 0)) << " " << s); std::vector<WalshTerm> t; compute_fast_walsh_transform(&e, t); size_t sig = 0; for (auto& x : t) sig += std::fabs(std::ldexp(x.coefficient, -n)) > 1e-9 * (sumabs(w) + 1e-300); REQUIRE(sig <= size_t(m), "too-many-terms", sig << " of " << m);
}
