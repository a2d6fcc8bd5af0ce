// P20: model-based algorithms learn the model of the selected points.
#include "algorithms.hh"
#include "objectives.hh"
using namespace alg; using namespace hnco::algorithm::walsh_moment;
struct Capture { std::ostringstream o; std::streambuf *old; Capture(): old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
typedef std::vector<double> VD;
static double clampd(double x, double lo, double hi) { x = std::min(hi, x); return std::max(lo, x); }
// Objective without ties: distinct points have distinct values (up to hash collisions)
static std::function<double(const BV&)> injective(Gen& g, int n) {
  uint64_t salt = g.seed32(); double w = g.pick(std::vector<double>{0, 1, 4}); VD c(n); for (auto& v : c) v = g.irange(-3, 3);
  return [salt, w, c](const BV& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += c[i] * x[i]; return w * s + double(obj::hash(x, salt) >> 11) / double(1ULL << 53); };
}
// Martingale test: sums of (x - p) against predictable weights stay within 8 sigma (+8)
struct Mart { VD s, v; void add(size_t k, double w, double x, double p) { if (s.size() <= k) { s.resize(k + 1); v.resize(k + 1); } s[k] += w * (x - p); v[k] += w * w * p * (1 - p); }
  void check(const std::string& what) { for (size_t k = 0; k < s.size(); k++) REQUIRE(std::fabs(s[k]) <= 8 * std::sqrt(v[k]) + 8, "distribution", what << ": statistic " << k << " is " << s[k] << ", standard deviation " << std::sqrt(v[k])); } };
static std::vector<VD> parse(const std::string& s) { std::vector<VD> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) { std::istringstream j(l); VD v; double d; while (j >> d) v.push_back(d); r.push_back(v); } return r; }
static bool near6(double a, double b) { return std::fabs(a - b) <= 2e-5 * (std::fabs(b) + 1e-3) + 1e-9; }
static double entropy(const VD& p) { double s = 0; for (double q : p) if (q > 0 && q < 1) s -= q * std::log(q) + (1 - q) * std::log(1 - q); return s; }

// ---- elementary operations on probability vectors
PBT(pv_operations, 3000, 40000) {
  int n = g.small(1, 40); seed(g); g.note() << "n=" << n; g.nontrivial(n > 1);
  VD p(n), x(n), y(n); for (int i = 0; i < n; i++) { p[i] = g.chance(1, 6) ? double(g.flag()) : g.unit(); x[i] = g.unit(); y[i] = g.unit(); } VD q = p; BV b = g.bits(n); double rate = g.pick(std::vector<double>{0, 1, 0.5, g.unit()}), w = g.real(-3, 3); int c = g.irange(1, 30); double lo = g.unit() / 2, hi = 1 - g.unit() / 2;
  REQUIRE(pbt::close(pv_entropy(p), entropy(p), n), "entropy", pbt::showv(p) << " " << pv_entropy(p) << " expected " << entropy(p)); REQUIRE(p == q, "argument", "entropy altered its argument");
  auto cmp = [&](const VD& a, std::function<double(int)> f, const char *op) { for (int i = 0; i < n; i++) REQUIRE(pbt::close(a[i], f(i), 1), "operation", op << " component " << i << " gives " << a[i] << " instead of " << f(i)); };
  VD a = p; pv_add(a, b); cmp(a, [&](int i) { return p[i] + b[i]; }, "pv_add"); a = p; pv_add(a, b, w); cmp(a, [&](int i) { return p[i] + w * b[i]; }, "pv_add weighted"); a = p; pv_average(a, c); cmp(a, [&](int i) { return p[i] / c; }, "pv_average");
  a = p; pv_update(a, x, rate); cmp(a, [&](int i) { return p[i] + rate * (x[i] - p[i]); }, "pv_update"); a = p; pv_update(a, b, rate); cmp(a, [&](int i) { return p[i] + rate * (b[i] - p[i]); }, "pv_update bv"); a = p; pv_update(a, x, y, rate); cmp(a, [&](int i) { return p[i] + rate * (x[i] - y[i]); }, "pv_update x y");
  a = p; pv_bound(a, lo, hi); for (int i = 0; i < n; i++) REQUIRE(a[i] == clampd(p[i], lo, hi), "bound", p[i] << " in [" << lo << "," << hi << "] gives " << a[i]); pv_uniform(a); cmp(a, [](int) { return 0.5; }, "pv_uniform"); pv_init(a); for (double v : a) REQUIRE(v == 0, "init", v);
  BV s(n); for (int t = 0; t < 20; t++) { pv_sample(p, s); for (int i = 0; i < n; i++) REQUIRE(s[i] <= 1 && !(p[i] == 0 && s[i]) && !(p[i] == 1 && !s[i]), "sample", "component " << i << " with probability " << p[i] << " gives " << int(s[i])); }
}
PBT(pv_sampling, 60, 600) {
  int n = g.irange(1, 8); seed(g); VD p(n); for (auto& v : p) v = g.unit(); g.note() << pbt::showv(p); g.nontrivial(n > 1); Mart m; BV s(n); for (int t = 0; t < 4000; t++) { pv_sample(p, s); int k = 0; for (int i = 0; i < n; i++) { m.add(k++, 1, s[i], p[i]); for (int j = 0; j < i; j++) m.add(k++, s[j] - p[j], s[i], p[i]); } } m.check("pv_sample");
}

// ---- univariate algorithms, replayed from the points they evaluated
enum { U_PBIL, U_NPS, U_UMDA, U_CGA, U_MMAS, U_RAM, U_RAM2, U_COUNT };
static void univariate(Gen& g, int kind, int n, int T, int pop, bool stat) {
  int sel = g.irange(1, kind == U_NPS && g.flag() ? std::max(1, pop / 2) : pop); double rate = g.pick(std::vector<double>{0, 1, 0.5, 0.1, 0.01, g.unit()}); bool ent = g.flag(); int comps = g.chance(1, 4) ? g.irange(0, n + 3) : n; bool strict = g.flag();
  auto f = injective(g, n); if (kind == U_MMAS && g.chance(1, 2)) { auto f0 = f; f = [f0](const BV& x) { return std::floor(f0(x) * 2); }; } seed(g); Recorder r(f, n);
  static const char *names[] = {"pbil", "nps-pbil", "umda", "cga", "mmas", "ram-umda", "ram-umda2"}; g.label(names[kind]);
  g.note() << names[kind] << " n=" << n << " T=" << T << " pop " << pop << " sel " << sel << " rate " << rate << (ent ? " entropy" : "") << (strict ? " strict" : ""); g.nontrivial(n > 2 && T > 1);
  std::shared_ptr<PvAlgorithm> a;
  switch (kind) {
  case U_PBIL: { auto b = std::make_shared<Pbil>(n, pop); b->set_selection_size(sel); b->set_learning_rate(rate); a = b; break; }
  case U_NPS: { auto b = std::make_shared<NpsPbil>(n, pop); b->set_selection_size(sel); b->set_learning_rate(rate); a = b; break; }
  case U_UMDA: { auto b = std::make_shared<Umda>(n, pop); b->set_selection_size(sel); a = b; break; }
  case U_CGA: { auto b = std::make_shared<CompactGa>(n); b->set_learning_rate(rate); a = b; break; }
  case U_MMAS: { auto b = std::make_shared<Mmas>(n); b->set_learning_rate(rate); if (strict) b->set_compare(std::greater<double>()); else b->set_compare(std::greater_equal<double>()); a = b; break; }
  case U_RAM: { auto b = std::make_shared<RamUmda>(n, pop); b->set_selection_size(sel); b->set_ts_length(0); a = b; break; }
  default: { auto b = std::make_shared<RamUmda2>(n, pop); b->set_selection_size(sel); b->set_ts_length(g.small(0, 10)); if (stat) { b->set_crossover_probability(0); b->set_latent_space_probability(0); } a = b; break; }
  }
  a->set_log_pv(true); a->set_log_entropy(ent); a->set_log_num_components(comps); a->set_num_iterations(T);
  int runs = stat ? 1 : g.irange(1, 2);
  for (int run = 0; run < runs; run++) {
    r.log.clear(); std::string text; { Capture c; std::vector<Function *> fs{&r}; a->maximize(fs); text = c.o.str(); } auto lines = parse(text); REQUIRE(int(lines.size()) == T, "lines", lines.size() << " lines of log for " << T << " iterations"); auto sol = a->get_solution();
    size_t per = kind == U_CGA ? 2 : kind == U_MMAS ? 1 : pop; REQUIRE(r.log.size() == 1 + per * T, "count", r.log.size()); size_t at = 1;
    const double lo = 1 / double(n), hi = 1 - 1 / double(n); VD p(n, 0.5); BV cur = r.log[0].x; double curv = r.log[0].v; auto bound = [&]() { for (auto& v : p) v = clampd(v, lo, hi); }; Mart m;
    if (kind == U_MMAS) { for (int i = 0; i < n; i++) p[i] += rate * (cur[i] - p[i]); bound(); }
    bool ram = kind == U_RAM || kind == U_RAM2;
    for (int t = 0; t < T; t++, at += per) {
      if (stat && !(ram && t == 0)) for (size_t k = 0; k < per; k++) { const BV& x = r.log[at + k].x; for (int i = 0; i < n; i++) { m.add(2 * i, 1, x[i], p[i]); m.add(2 * i + 1, p[i] - 0.5, x[i], p[i]); if (i) { m.add(2 * n + i, x[i - 1] - p[i - 1], x[i], p[i]); } } }
      if (kind == U_CGA) { auto &A = r.log[at], &B = r.log[at + 1]; bool sw = A.v < B.v; const BV &b = sw ? B.x : A.x, &w = sw ? A.x : B.x; if (A.v != B.v) for (int i = 0; i < n; i++) if (b[i] != w[i]) p[i] += b[i] ? rate : -rate; bound(); }
      else if (kind == U_MMAS) { auto& e = r.log[at]; if (strict ? e.v > curv : e.v >= curv) { cur = e.x; curv = e.v; } for (int i = 0; i < n; i++) p[i] += rate * (cur[i] - p[i]); bound(); }
      else {
        std::vector<size_t> o(pop); std::iota(o.begin(), o.end(), at); std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return r.log[i].v > r.log[j].v; }); VD best(n), worst(n); for (int k = 0; k < sel; k++) for (int i = 0; i < n; i++) { best[i] += r.log[o[k]].x[i]; worst[i] += r.log[o[pop - 1 - k]].x[i]; }
        for (int i = 0; i < n; i++) { double mb = best[i] / sel, mw = worst[i] / sel; if (kind == U_PBIL) p[i] += rate * (mb - p[i]); else if (kind == U_NPS) p[i] += rate * (mb - mw); else p[i] = mb; } bound();
      }
      const VD& L = lines[t]; size_t off = ent ? 1 : 0, shown = std::min(comps, n); REQUIRE(L.size() == off + shown, "log", "line " << t << " has " << L.size() << " values instead of " << off + shown);
      VD seen(p); if (kind == U_RAM) for (int i = 0; i < int(shown); i++) seen[i] = std::fabs(L[off + i] - p[i]) < std::fabs(L[off + i] - (1 - p[i])) ? p[i] : 1 - p[i];
      if (ent) REQUIRE(near6(L[0], entropy(p)), "entropy", "iteration " << t << " logs entropy " << L[0] << " expected " << entropy(p));
      for (size_t i = 0; i < shown; i++) REQUIRE(near6(L[off + i], seen[i]), "model", "iteration " << t << " component " << i << " logged " << L[off + i] << " expected " << seen[i] << " in " << pbt::showv(p));
    }
    if (stat) m.check(names[kind]);
    if (kind == U_MMAS) REQUIRE(sol.second == curv && sol.first == cur, "solution", "mmas reports " << sol.second << " expected " << curv);
  }
}
PBT(univariate_updates, 3000, 40000) { int kind = g.below(U_COUNT), n = g.chance(1, 25) ? g.irange(21, 150) : g.small(2, 20), pop = g.chance(1, 25) ? g.irange(21, 150) : g.small(1, 20); if (kind == U_NPS) pop = std::max(2, pop); univariate(g, kind, n, g.small(1, 25), pop, false); }
PBT(univariate_sampling, 60, 600) { int kind = g.below(U_COUNT), n = g.irange(2, 8); univariate(g, kind, n, kind == U_CGA || kind == U_MMAS ? 2000 : 300, g.irange(5, 12), true); }

// Random affine maps: with one selected point, a new point differs from it by the image of independent flips at rate 1/n through
// a product of random transvections, of which only the length matters for the distribution of the number of differences.
PBT(ram_umda_maps, 100, 1000) {
  int n = g.irange(2, 10), pop = g.irange(2, 4), T = 1500, mode = g.below(6), len = g.pick(std::vector<int>{0, 1, 2, 4, 8, 16}), lo = g.pick(std::vector<int>{0, 0, 1, 3}), hi = lo + g.pick(std::vector<int>{0, 1, 3, 8, 20}), per = g.pick(std::vector<int>{100, 200, 400}); double gp = g.pick(std::vector<double>{0.2, 0.5, 0.8}), cp = g.pick(std::vector<double>{0, 0, 1, g.unit()}), lp = g.pick(std::vector<double>{0, 1, 1, g.unit()}); bool two = g.flag(); seed(g); auto f = injective(g, n);
  static const char *names[] = {"constant", "increasing", "decreasing", "uniform", "geometric", "reverse geometric"}; g.label(names[mode]); if (mode == 1) len = std::min(len, hi); if (mode == 2) len = std::max(len, lo);
  g.note() << (two ? "ram-umda2" : "ram-umda") << " n=" << n << " pop " << pop << " mode " << names[mode] << " length " << len << " in [" << lo << "," << hi << "] period " << per << " parameter " << gp << " crossover " << cp << " latent " << lp; g.nontrivial(n > 2);
  std::shared_ptr<RamUmda> a; if (two) { auto b = std::make_shared<RamUmda2>(n, pop); b->set_crossover_probability(cp); b->set_latent_space_probability(lp); a = b; } else a = std::make_shared<RamUmda>(n, pop);
  a->set_selection_size(1); a->set_ts_length_mode(mode); a->set_ts_length(len); a->set_ts_length_lower_bound(lo); a->set_ts_length_upper_bound(hi); a->set_ts_length_increment_period(per); a->set_ts_length_distribution_parameter(gp); a->set_num_iterations(T);
  const int M = 64; std::vector<VD> W(M + 1, VD(n + 1)); // W[l][w]: probability of w differences after l transvections
  for (int w = 0; w <= n; w++) { double b = 1; for (int i = 0; i < w; i++) b *= double(n - i) / (i + 1); W[0][w] = b * std::pow(1.0 / n, w) * std::pow(1 - 1.0 / n, n - w); }
  for (int l = 0; l < M; l++) for (int w = 0; w <= n; w++) { double up = double(w) * (n - w) / (n * (n - 1.0)), down = double(w) * (w - 1) / (n * (n - 1.0)); W[l + 1][w] += W[l][w] * (1 - up - down); if (w < n) W[l + 1][w + 1] += W[l][w] * up; if (w) W[l + 1][w - 1] += W[l][w] * down; }
  auto lengths = [&](int t) { VD p(M + 1); auto at = [&](int l) -> double& { return p[std::min(l, M)]; };
    if (mode == 0) at(len) = 1; else if (mode == 1) at(std::min(hi, len + (t + 1) / per)) = 1; else if (mode == 2) at(std::max(lo, len - (t + 1) / per)) = 1; else if (mode == 3) for (int l = lo; l <= hi; l++) at(l) += 1.0 / (hi - lo + 1); else { double q = gp; for (int k = 0; k < 400; k++, q *= 1 - gp) at(mode == 4 ? std::min(k, hi) : std::max(hi - k, lo)) += q; } return p; };
  Recorder r(f, n); { std::vector<Function *> fs{&r}; a->maximize(fs); } REQUIRE(r.log.size() == size_t(1 + pop * T), "count", r.log.size());
  double s1 = 0, v1 = 0, s0 = 0, v0 = 0, e1 = 0, e0 = 0; VD flip(n), fp(n);
  for (int t = 0; t + 1 < T; t++) {
    size_t best = 1 + t * pop; for (int k = 1; k < pop; k++) if (r.log[1 + t * pop + k].v > r.log[best].v) best = 1 + t * pop + k; const BV& y = r.log[1 + (t + 1) * pop].x; int d = 0; for (int i = 0; i < n; i++) { bool x = y[i] != r.log[best].x[i]; d += x; flip[i] += x; }
    VD p = lengths(t); double m = 0, m0 = 0, z = W[0][0]; for (int l = 0; l <= M; l++) if (p[l] > 0) for (int w = 0; w <= n; w++) m += p[l] * W[l][w] * w; m0 = z; double c = two ? cp : 0, lat = two ? lp : 1; if (two) { m = c * (m + 1) / 2 + (1 - c) * (lat * m + (1 - lat)); } e1 += m; s1 += d - m; v1 += (d - m) * (d - m); for (int i = 0; i < n; i++) fp[i] += m / n;
    if (c == 0) { e0 += m0; s0 += (d == 0) - m0; v0 += m0 * (1 - m0); }
  }
  REQUIRE(std::fabs(s1) <= 8 * std::sqrt(v1) + 8, "distribution", "differences from the selected point: " << e1 + s1 << " in total, expected " << e1 << ", standard deviation " << std::sqrt(v1));
  REQUIRE(std::fabs(s0) <= 8 * std::sqrt(v0) + 8, "distribution", "copies of the selected point: " << e0 + s0 << " expected " << e0 << ", standard deviation " << std::sqrt(v0));
  for (int i = 0; i < n; i++) { double var = std::max(fp[i] * (1 - fp[i] / T), 1.0); REQUIRE(std::fabs(flip[i] - fp[i]) <= 8 * std::sqrt(var) + 8, "distribution", "bit " << i << " differs " << flip[i] << " times, expected " << fp[i]); }
}

// ---- Walsh moments
struct Ref { int n; VD f; std::vector<VD> s; bool sym = true; Ref(int n): n(n), f(n), s(n, VD(n)) {} void each(std::function<double(double)> h) { for (int i = 0; i < n; i++) { f[i] = h(f[i]); for (int j = 0; j < n; j++) if (i != j) s[i][j] = h(s[i][j]); } }
  void add(const BV& x) { for (int i = 0; i < n; i++) { double a = x[i] ? -1 : 1; f[i] += a; for (int j = 0; j < n; j++) if (i != j) s[i][j] += a * (x[j] ? -1 : 1); } }
  void lin(double a, const Ref& u, double b, const Ref& v, double c) { for (int i = 0; i < n; i++) { f[i] = c * f[i] + a * u.f[i] + b * v.f[i]; for (int j = 0; j < n; j++) if (i != j) s[i][j] = c * s[i][j] + a * u.s[i][j] + b * v.s[i][j]; } }
  double fold(std::function<double(double, double)> h) const { double a = 0; for (int i = 0; i < n; i++) { a = h(a, f[i]); for (int j = 0; j < i; j++) a = h(a, s[i][j]); } return a; }
  double n1() const { return fold([](double a, double x) { return a + std::fabs(x); }); } double n2() const { return std::sqrt(fold([](double a, double x) { return a + x * x; })); } double ni() const { return fold([](double a, double x) { return std::max(a, std::fabs(x)); }); } };
template<class M> static void same(const M& m, const Ref& r, bool full, const char *op) {
  double sc = 1 + r.ni(); REQUIRE(int(m.first_moment.size()) == r.n && int(m.second_moment.size()) == r.n, "shape", op);
  for (int i = 0; i < r.n; i++) { REQUIRE(pbt::close(m.first_moment[i], r.f[i], sc), "moment", op << " first " << i << " is " << m.first_moment[i] << " expected " << r.f[i]); int top = full && r.sym ? r.n : i; REQUIRE(int(m.second_moment[i].size()) == (full ? r.n : i), "shape", op); for (int j = 0; j < top; j++) if (j != i) REQUIRE(pbt::close(m.second_moment[i][j], r.s[i][j], sc), "moment", op << " second " << i << "," << j << " is " << m.second_moment[i][j] << " expected " << r.s[i][j]); }
}
template<class M> static void moments(Gen& g, bool full) {
  int n = g.small(1, 12), K = 3; g.note() << (full ? "full" : "triangular") << " n=" << n << ":"; std::vector<M> m(K, M(n)); std::vector<Ref> r(K, Ref(n)); std::vector<int> added(K, 0); for (auto& x : m) x.init(); int ops = g.small(1, 25); g.nontrivial(n > 1 && ops > 3);
  auto inside = [&](const Ref& x) { return x.ni() <= 1; };
  for (int o = 0; o < ops; o++) {
    int a = g.below(K), b = g.below(K), c = g.below(K); double rate = g.pick(std::vector<double>{0, 1, 0.5, g.unit()}); const char *op = "";
    switch (g.below(9)) {
    case 0: op = "init"; m[a].init(); r[a] = Ref(n); added[a] = 0; break;
    case 1: { int k = g.irange(1, 6); op = "init-add-average"; m[a].init(); r[a] = Ref(n); for (int i = 0; i < k; i++) { BV x = g.bits(n); m[a].add(x); r[a].add(x); r[a].sym = false; same(m[a], r[a], full, "add"); } m[a].average(k); r[a].each([&](double v) { return v / k; }); r[a].sym = true; added[a] = 0; break; }
    case 2: op = "add"; { m[a].init(); r[a] = Ref(n); BV x = g.bits(n); m[a].add(x); r[a].add(x); r[a].sym = false; break; }
    case 3: if (a == b || !inside(r[a]) || !inside(r[b])) continue; op = "update"; m[a].update(m[b], rate); { Ref z = r[a]; r[a].lin(rate, r[b], -rate, z, 1); r[a].sym = true; } break;
    case 4: if (a == b || a == c) continue; rate = g.chance(1, 3) ? g.real(-5, 5) : rate; op = "update2"; m[a].update(m[b], m[c], rate); r[a].lin(rate, r[b], -rate, r[c], 1); r[a].sym = true; break;
    case 5: if (a == b || a == c) continue; rate = double(g.irange(-20, 20)); op = "scaled_difference"; m[a].scaled_difference(rate, m[b], m[c]); r[a].lin(rate, r[b], -1, r[c], 0); r[a].sym = true; break;
    case 6: { double margin = g.pick(std::vector<double>{0, 0.25, 0.9, 1.0 / std::max(2, n)}); op = "bound"; m[a].bound(margin); r[a].each([&](double v) { return clampd(v, margin - 1, 1 - margin); }); r[a].sym = true; break; }
    case 7: { op = "norms"; double sc = r[a].n1() + 1; REQUIRE(pbt::close(m[a].norm_1(), r[a].n1(), sc), "norm", "1-norm " << m[a].norm_1() << " expected " << r[a].n1()); REQUIRE(pbt::close(m[a].norm_2(), r[a].n2(), sc), "norm", "2-norm " << m[a].norm_2() << " expected " << r[a].n2()); REQUIRE(pbt::close(m[a].norm_infinite(), r[a].ni(), sc), "norm", "infinite norm " << m[a].norm_infinite() << " expected " << r[a].ni()); Ref d = r[a]; d.lin(1, r[a], -1, r[b], 0); REQUIRE(pbt::close(m[a].distance(m[b]), d.n2(), sc + r[b].n1()), "distance", m[a].distance(m[b]) << " expected " << d.n2()); break; }
    default: { if (!r[a].sym) continue; op = "display"; std::ostringstream s; m[a].display(s); auto L = parse(s.str()); REQUIRE(int(L.size()) == n, "display", s.str()); for (int i = 0; i < n; i++) { REQUIRE(int(L[i].size()) == n, "display", s.str()); for (int j = 0; j < n; j++) { double e = i == j ? r[a].f[i] : r[a].s[i][j]; REQUIRE(near6(L[i][j], e), "display", i << "," << j << ": " << L[i][j] << " expected " << e); } } }
    }
    g.note() << " " << op << a; for (int k = 0; k < K; k++) same(m[k], r[k], full, op);
    for (int k = 0; k < K; k++) { r[k].f = m[k].first_moment; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) r[k].s[i][j] = r[k].s[j][i] = m[k].second_moment[i][j]; } // forget rounding
  }
}
PBT(triangular_moments, 2500, 40000) { moments<TriangularMoment>(g, false); }
PBT(full_moments, 2500, 40000) { moments<FullMoment>(g, true); }

// ---- herding
template<class M> static M gen_moment(Gen& g, int n, const VD& f, const std::vector<VD>& s) { M m(n); m.init(); m.first_moment = f; for (int i = 0; i < n; i++) for (size_t j = 0; j < m.second_moment[i].size(); j++) if (int(j) != i) m.second_moment[i][j] = s[i][j]; return m; }
struct RefTarget { VD f; std::vector<VD> s; };
static RefTarget gen_target(Gen& g, int n, int den) { RefTarget t; t.f.resize(n); t.s.assign(n, VD(n)); int mode = g.below(3); for (int i = 0; i < n; i++) { t.f[i] = mode == 0 ? 0 : double(g.irange(-den, den)) / den; for (int j = 0; j < i; j++) t.s[i][j] = t.s[j][i] = mode == 2 ? 0 : double(g.irange(-den, den)) / den; } return t; }
static BV herd(const VD& df, const std::vector<VD>& ds, const std::vector<int>& order) { BV x(order.size()); for (size_t k = 0; k < order.size(); k++) { int i = order[k]; double acc = df[i]; for (size_t l = 0; l < k; l++) acc += x[order[l]] ? -ds[i][order[l]] : ds[i][order[l]]; x[i] = acc > 0 ? 0 : 1; } return x; }
template<class H> static void herding(Gen& g, bool full) {
  typedef typename H::Moment M; bool rnd = g.flag(); int n = rnd ? g.irange(1, 5) : g.small(1, 14), T = g.small(1, 30), runs = g.irange(1, 2); seed(g); g.note() << (full ? "full" : "triangular") << " herding n=" << n << " T=" << T << (rnd ? " random order" : ""); g.nontrivial(n > 1 && T > 1);
  H h(n); if (!rnd || g.flag()) h.set_randomize_bit_order(rnd); RefTarget t = gen_target(g, n, 64); M m = gen_moment<M>(g, n, t.f, t.s);
  for (int run = 0; run < runs; run++) {
    h.init(); Ref count(n);
    for (int k = 1; k <= T; k++) {
      if (g.chance(1, 10)) { t = gen_target(g, n, 64); m = gen_moment<M>(g, n, t.f, t.s); }
      Ref tr(n); tr.f = t.f; tr.s = t.s; Ref d(n); d.lin(k, tr, -1, count, 0); BV x = g.bits(n); h.sample(m, x); std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); bool ok = false;
      if (!rnd) { ok = herd(d.f, d.s, o) == x; } else do ok = herd(d.f, d.s, o) == x; while (!ok && std::next_permutation(o.begin(), o.end()));
      REQUIRE(ok, "sample", "run " << run << " time " << k << ": " << pbt::show(x) << " does not follow from any order, delta " << pbt::showv(d.f)); same(h.get_delta(), d, full, "delta");
      count.add(x); if (g.chance(1, 3)) { Ref e(n); e.lin(k, tr, -1, count, 0); double v = h.error(m); REQUIRE(pbt::close(v, e.n2(), e.n1() + 1), "error", "time " << k << " error " << v << " expected " << e.n2()); }
    }
  }
}
PBT(triangular_herding, 1200, 15000) { herding<TriangularMomentHerding>(g, false); }
PBT(full_herding, 1200, 15000) { herding<FullMomentHerding>(g, true); }
PBT(herding_order_distribution, 40, 400) {
  int n = g.irange(2, 4); RefTarget t = gen_target(g, n, 64); seed(g); bool full = g.flag(); g.note() << "n=" << n << (full ? " full" : " triangular"); std::map<BV, double> expect; std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); double total = 0; do { expect[herd(t.f, t.s, o)]++; total++; } while (std::next_permutation(o.begin(), o.end())); g.nontrivial(expect.size() > 1);
  std::map<BV, double> seen; const int N = 3000; BV x(n); TriangularMoment tm = gen_moment<TriangularMoment>(g, n, t.f, t.s); FullMoment fm = gen_moment<FullMoment>(g, n, t.f, t.s); TriangularMomentHerding th(n); FullMomentHerding fh(n); for (int k = 0; k < N; k++) { if (full) { fh.init(); fh.sample(fm, x); } else { th.init(); th.sample(tm, x); } seen[x]++; }
  for (auto& e : seen) REQUIRE(expect.count(e.first), "impossible", pbt::show(e.first)); for (auto& e : expect) { double p = e.second / total, sd = std::sqrt(N * p * (1 - p)); REQUIRE(std::fabs(seen[e.first] - N * p) <= 7 * sd + 1, "distribution", pbt::show(e.first) << " drawn " << seen[e.first] << " times, expected " << N * p); }
}
PBT(herding_layouts_agree, 400, 4000) { int n = g.small(1, 10), T = g.irange(1, 30); RefTarget t = gen_target(g, n, 64); unsigned s = g.seed32(); g.note() << "n=" << n; g.nontrivial(n > 1); auto tm = gen_moment<TriangularMoment>(g, n, t.f, t.s); auto fm = gen_moment<FullMoment>(g, n, t.f, t.s); std::vector<BV> a(T, BV(n)), b(T, BV(n)); TriangularMomentHerding th(n); FullMomentHerding fh(n); hnco::random::Generator::set_seed(s); th.init(); for (auto& x : a) th.sample(tm, x); hnco::random::Generator::set_seed(s); fh.init(); for (auto& x : b) fh.sample(fm, x); REQUIRE(a == b, "layouts", "triangular and full herding differ"); }

// ---- Gibbs sampling
static double sigm(double x) { return 1 / (1 + std::exp(-x)); }
static double cond(const RefTarget& t, const BV& s, int i) { double d = t.f[i]; for (size_t j = 0; j < s.size(); j++) if (int(j) != i) d += s[j] ? -t.s[i][j] : t.s[i][j]; return sigm(-2 * d); }
template<class G> static void gibbs(Gen& g, bool full) {
  typedef typename G::Moment M; int n = g.irange(1, 7); RefTarget t = gen_target(g, n, 16); double amp = g.pick(std::vector<double>{1, 1, 3, 100}); for (auto& v : t.f) v *= amp; for (auto& r : t.s) for (auto& v : r) v *= amp; seed(g); g.note() << (full ? "full" : "triangular") << " gibbs n=" << n << " amplitude " << amp; g.nontrivial(n > 1);
  M m = gen_moment<M>(g, n, t.f, t.s); G s(n, m); s.init(); BV x = s.get_state(); REQUIRE(int(x.size()) == n && valid(x), "state", "initial state"); Mart mu, ms, mi;
  for (int k = 0; k < 1500; k++) {
    int i = k < 50 ? k % n : int(hnco::random::Generator::engine() % n); BV prev = s.get_state(); double p = cond(t, prev, i); s.update(i); const BV& y = s.get_state(); for (int j = 0; j < n; j++) REQUIRE(y[j] <= 1 && (j == i || y[j] == prev[j]), "other", "update of " << i << " changed bit " << j); mu.add(2 * i, 1, y[i], p); mu.add(2 * i + 1, p - 0.5, y[i], p); mu.add(2 * n + n * n, p < 0.5 ? -1 : 1, y[i], p); for (int j = 0; j < n; j++) if (j != i) mu.add(2 * n + i * n + j, prev[j] ? 1 : -1, y[i], p);
    REQUIRE(!(p < 1e-12 && y[i]) && !(p > 1 - 1e-12 && !y[i]), "certain", "bit " << i << " with probability " << p << " set to " << int(y[i]));
  }
  mu.check("update");
  for (int k = 0; k < 1500; k++) { BV prev = s.get_state(); VD p(n); for (int i = 0; i < n; i++) p[i] = cond(t, prev, i); s.update_sync(); const BV& y = s.get_state(); for (int i = 0; i < n; i++) { ms.add(2 * i, 1, y[i], p[i]); ms.add(2 * i + 1, p[i] - 0.5, y[i], p[i]); ms.add(2 * n + n * n, p[i] < 0.5 ? -1 : 1, y[i], p[i]); for (int j = 0; j < n; j++) if (j != i) ms.add(2 * n + i * n + j, prev[j] ? 1 : -1, y[i], p[i]); REQUIRE(!(p[i] < 1e-12 && y[i]) && !(p[i] > 1 - 1e-12 && !y[i]), "certain", "synchronous update: bit " << i << " with probability " << p[i] << " set to " << int(y[i])); } if (k % 4 == 0) { s.init(); for (int i = 0; i < n; i++) mi.add(i, 1, s.get_state()[i], 0.5); } }
  ms.check("update_sync"); mi.check("init");
}
PBT(triangular_gibbs, 150, 1500) { gibbs<TriangularMomentGibbsSampler>(g, false); }
PBT(full_gibbs, 150, 1500) { gibbs<FullMomentGibbsSampler>(g, true); }

// ---- algorithms on moments
template<class H> static void hea(Gen& g) {
  int n = g.small(2, 8), pop = g.small(1, 12), sel = g.irange(1, pop), T = g.small(1, 20), period = g.chance(1, 2) ? 0 : g.irange(1, 4); double rate = g.pick(std::vector<double>{0, 1, 0.5, 0.1, g.unit()}), margin = g.chance(1, 2) ? 1.0 / n : g.unit() * 0.9; bool bnd = !g.chance(1, 4), rnd = g.flag(); int mode = g.below(3);
  auto f = injective(g, n); seed(g); Recorder r(f, n); g.note() << "hea n=" << n << " pop " << pop << " sel " << sel << " T=" << T << " period " << period << " rate " << rate << " margin " << margin << (bnd ? "" : " unbounded") << (rnd ? " random order" : "") << " log " << mode; g.nontrivial(T > 1 && n > 2);
  Hea<H> a(n, pop); a.set_selection_size(sel); a.set_reset_period(period); a.set_learning_rate(rate); a.set_margin(margin); a.set_bound_moment(bnd); a.set_randomize_bit_order(rnd); a.set_num_iterations(T); a.set_log_target(mode == 0); a.set_log_herding_error(mode == 1); a.set_log_target_norm(mode != 0); a.set_log_delta_norm(mode != 0);
  int runs = g.irange(1, 2);
  for (int run = 0; run < runs; run++) {
    r.log.clear(); std::string text; { Capture c; std::vector<Function *> fs{&r}; a.maximize(fs); text = c.o.str(); } auto L = parse(text); REQUIRE(L.size() == size_t(mode == 0 ? T * n : T), "lines", L.size() << " lines"); REQUIRE(r.log.size() == size_t(1 + pop * T), "count", r.log.size());
    Ref target(n), count(n); int time = 0; size_t at = 1;
    for (int t = 0; t < T; t++, at += pop) {
      if (period > 0 && t % period == 0) { time = 0; count = Ref(n); } Ref d(n);
      for (int k = 0; k < pop; k++) {
        const BV& x = r.log[at + k].x; time++; d.lin(time, target, -1, count, 0);
        if (!rnd || n <= 4) { std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); bool any = false; do { bool ok = true; for (int p = 0; p < n && ok; p++) { int i = o[p]; double acc = d.f[i]; for (int l = 0; l < p; l++) acc += x[o[l]] ? -d.s[i][o[l]] : d.s[i][o[l]]; double tol = 1e-9 * time * n; if (acc > tol && x[i]) ok = false; if (acc < -tol && !x[i]) ok = false; if (acc == 0 && t == 0 && !x[i]) ok = false; } any = ok; } while (!any && rnd && std::next_permutation(o.begin(), o.end())); REQUIRE(any, "sample", "iteration " << t << " individual " << k << " " << pbt::show(x) << " is not a herding sample"); }
        count.add(x);
      }
      if (mode) { size_t c = 0; const VD& l = L[t]; REQUIRE(l.size() == size_t(mode == 1 ? 3 : 2), "log", l.size()); if (mode == 1) { Ref e(n); e.lin(time, target, -1, count, 0); REQUIRE(near6(l[c], e.n2()) || std::fabs(l[c] - e.n2()) < 1e-7 * time, "error", "iteration " << t << " logs error " << l[c] << " expected " << e.n2()); c++; } REQUIRE(near6(l[c], target.n2()), "norm", "iteration " << t << " logs target norm " << l[c] << " expected " << target.n2()); REQUIRE(near6(l[c + 1], d.n2()) || std::fabs(l[c + 1] - d.n2()) < 1e-7 * time, "norm", "iteration " << t << " logs delta norm " << l[c + 1] << " expected " << d.n2()); }
      std::vector<size_t> o(pop); std::iota(o.begin(), o.end(), at); std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return r.log[i].v > r.log[j].v; }); Ref s(n); for (int k = 0; k < sel; k++) s.add(r.log[o[k]].x); s.each([&](double v) { return v / sel; }); Ref z = target; target.lin(rate, s, -rate, z, 1); if (bnd) target.each([&](double v) { return clampd(v, margin - 1, 1 - margin); });
      if (mode == 0) for (int i = 0; i < n; i++) { REQUIRE(int(L[t * n + i].size()) == n, "log", "row"); for (int j = 0; j < n; j++) { double e = i == j ? target.f[i] : target.s[i][j]; REQUIRE(near6(L[t * n + i][j], e), "target", "iteration " << t << " moment " << i << "," << j << " logged " << L[t * n + i][j] << " expected " << e); } }
    }
  }
}
PBT(hea_updates, 1500, 20000) { if (g.flag()) hea<TriangularMomentHerding>(g); else hea<FullMomentHerding>(g); }
template<class G> static void bm(Gen& g, bool stat) {
  typedef BmPbil<G> B; int n = stat ? g.irange(2, 6) : g.small(1, 8), pop = stat ? g.irange(5, 12) : g.small(1, 12); bool neg = g.flag(); int sel = g.irange(1, neg && g.flag() ? std::max(1, pop / 2) : pop), T = stat ? 150 : g.small(1, 20), mode = g.below(3), reset = g.below(3), cycles = stat ? 1 : g.small(0, 4), steps = stat ? g.irange(1, 3) : g.small(0, 20); double rate = g.pick(std::vector<double>{0, 1, 0.1, 0.01, g.unit() * 3}); bool flat = stat && g.chance(1, 3); if (flat) { rate = 0; steps = g.irange(1, 3 * n); cycles = g.irange(1, 3); }
  auto f = injective(g, n); seed(g); Recorder r(f, n); g.note() << "bm-pbil n=" << n << " pop " << pop << " sel " << sel << " T=" << T << " rate " << rate << " sampling " << mode << " reset " << reset << " cycles " << cycles << " steps " << steps << (neg ? " negative" : ""); g.nontrivial(T > 1 && n > 1);
  B a(n, pop); a.set_selection_size(sel); a.set_learning_rate(rate); a.set_num_gs_steps(steps); a.set_num_gs_cycles(cycles); a.set_negative_positive_selection(neg); a.set_sampling_mode(mode == 0 ? int(B::SamplingMode::asynchronous) : mode == 1 ? int(B::SamplingMode::asynchronous_full_scan) : int(B::SamplingMode::synchronous)); a.set_reset_mode(reset == 0 ? int(B::ResetMode::no_reset) : reset == 1 ? int(B::ResetMode::iteration) : int(B::ResetMode::bit_vector)); a.set_num_iterations(T); a.set_log_norm_infinite(true); a.set_log_norm_1(true);
  int runs = stat ? 1 : g.irange(1, 2);
  for (int run = 0; run < runs; run++) {
    r.log.clear(); std::string text; { Capture c; std::vector<Function *> fs{&r}; a.maximize(fs); text = c.o.str(); } auto L = parse(text); REQUIRE(int(L.size()) == T, "lines", L.size()); REQUIRE(r.log.size() == size_t(1 + pop * T), "count", r.log.size());
    Ref m(n); size_t at = 1; Mart ma; bool moved = false;
    for (int t = 0; t < T; t++, at += pop) {
      RefTarget rt; rt.f = m.f; rt.s = m.s;
      for (int k = 0; k < pop; k++) {
        bool linked = reset == 2 ? false : reset == 1 ? k > 0 : k + t > 0; const BV& x = r.log[at + k].x; if (at + k > 1 && x != r.log[at + k - 1].x) moved = true; if (!linked) continue; const BV& p = r.log[at + k - 1].x; int h = 0; for (int i = 0; i < n; i++) h += x[i] != p[i];
        int still = mode == 0 ? steps : cycles * n; REQUIRE(h <= still, "chain", "iteration " << t << " individual " << k << ": " << h << " bits changed in " << still << " updates");
        if (flat) { double q = mode == 0 ? 0.5 * (1 - std::pow(1 - 1.0 / n, steps)) : 0.5; for (int i = 0; i < n; i++) { ma.add(2 * i, 1, x[i] != p[i], q); ma.add(2 * i + 1, p[i] ? 1 : -1, x[i] != p[i], q); } continue; }
        if (stat && mode == 2) for (int i = 0; i < n; i++) { double q = cond(rt, p, i); ma.add(2 * i, 1, x[i], q); ma.add(2 * i + 1, q - 0.5, x[i], q); }
        if (stat && mode == 0 && steps == 1) { for (int i = 0; i < n; i++) { double q = cond(rt, p, i), c = p[i] ? 1 - q : q; ma.add(2 * i, 1, x[i] != p[i], c / n); ma.add(2 * i + 1, c - 0.5, x[i] != p[i], c / n); } }
      }
      std::vector<size_t> o(pop); std::iota(o.begin(), o.end(), at); std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return r.log[i].v > r.log[j].v; }); Ref best(n), other(n); for (int k = 0; k < sel; k++) best.add(r.log[o[k]].x); best.each([&](double v) { return v / sel; });
      if (neg) { for (int k = 0; k < sel; k++) other.add(r.log[o[pop - 1 - k]].x); other.each([&](double v) { return v / sel; }); } else { for (int k = 0; k < pop; k++) other.add(r.log[at + k].x); other.each([&](double v) { return v / pop; }); }
      m.lin(rate, best, -rate, other, 1); REQUIRE(L[t].size() == 2, "log", L[t].size()); REQUIRE(near6(L[t][0], m.ni()), "norm", "iteration " << t << " logs infinite norm " << L[t][0] << " expected " << m.ni()); REQUIRE(near6(L[t][1], m.n1()), "norm", "iteration " << t << " logs 1-norm " << L[t][1] << " expected " << m.n1());
    }
    if (stat) ma.check("bm-pbil");
    if (reset == 2 && (mode == 0 ? steps : cycles) == 0 && long(n) * pop * T > 60) REQUIRE(moved, "reset", "no reset for each bit vector");
    if (reset == 1 && (mode == 0 ? steps : cycles) == 0 && long(n) * T > 60) REQUIRE(moved, "reset", "no reset at each iteration");
  }
}
PBT(bm_pbil_updates, 1500, 20000) { if (g.flag()) bm<TriangularMomentGibbsSampler>(g, false); else bm<FullMomentGibbsSampler>(g, false); }
PBT(bm_pbil_sampling, 60, 600) { if (g.flag()) bm<TriangularMomentGibbsSampler>(g, true); else bm<FullMomentGibbsSampler>(g, true); }

// ---- MIMIC: chain of conditional probabilities of the selected points
PBT(mimic_sampling, 60, 600) {
  int n = g.irange(2, 5), pop = g.irange(6, 14), sel = g.irange(2, pop - 1), T = 400; auto f = injective(g, n); seed(g); Recorder r(f, n); g.note() << "mimic n=" << n << " pop " << pop << " sel " << sel; Mimic a(n, pop); a.set_selection_size(sel); a.set_num_iterations(T); std::vector<Function *> fs{&r}; a.maximize(fs); REQUIRE(r.log.size() == size_t(1 + pop * T), "count", r.log.size()); const double lo = 1 / double(n), hi = 1 - 1 / double(n);
  Mart m; size_t at = 1; bool known = false; std::vector<int> perm(n); std::vector<std::array<double, 2>> par(n); int used = 0;
  for (int t = 0; t < T; t++, at += pop) {
    if (t == 0) for (int k = 0; k < pop; k++) for (int i = 0; i < n; i++) m.add(i, 1, r.log[at + k].x[i], 0.5);
    if (known) { used++; for (int k = 0; k < pop; k++) { const BV& x = r.log[at + k].x; for (int i = 0; i < n; i++) { int b = i ? x[perm[i - 1]] : 0; double p = par[i][b]; m.add(n + 4 * i, 1, x[perm[i]], p); m.add(n + 4 * i + 1, p - 0.5, x[perm[i]], p); m.add(n + 4 * i + 2 + b, 1, x[perm[i]], p); m.add(n + 4 * n + i * 2 + b, p - 0.5, x[perm[i]], p); if (i > 1) m.add(7 * n + i, x[perm[i - 2]] ? 1 : -1, x[perm[i]], p); } } }
    std::vector<size_t> o(pop); std::iota(o.begin(), o.end(), at); std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return r.log[i].v > r.log[j].v; }); VD mean(n); for (int k = 0; k < sel; k++) for (int i = 0; i < n; i++) mean[i] += double(r.log[o[k]].x[i]) / sel;
    known = true; std::vector<int> left(n); std::iota(left.begin(), left.end(), 0); auto choose = [&](const VD& e) { int b = 0; for (size_t i = 1; i < e.size(); i++) if (e[i] < e[b]) b = i; for (size_t i = 0; i < e.size(); i++) if (int(i) != b && e[i] < e[b] + 1e-9) known = false; return b; };
    VD e; for (int i : left) e.push_back(std::min(mean[i], 1 - mean[i])); int b = choose(e); perm[0] = left[b]; left.erase(left.begin() + b); par[0] = {clampd(mean[perm[0]], lo, hi), clampd(mean[perm[0]], lo, hi)};
    for (int i = 1; i < n && known; i++) { e.clear(); std::vector<std::array<double, 2>> ps; for (int s : left) { double c[2][2] = {{0, 0}, {0, 0}}; for (int k = 0; k < sel; k++) c[r.log[o[k]].x[perm[i - 1]]][r.log[o[k]].x[s]]++; double h = 0; std::array<double, 2> p; for (int v = 0; v < 2; v++) { double q = c[v][0] + c[v][1]; p[v] = clampd(q ? c[v][1] / q : 0.5, lo, hi); for (int w = 0; w < 2; w++) if (c[v][w]) h += c[v][w] * std::log(q / c[v][w]); } e.push_back(h); ps.push_back(p); } int c = choose(e); perm[i] = left[c]; par[i] = ps[c]; left.erase(left.begin() + c); }
  }
  g.nontrivial(used > 20); m.check("mimic");
}
// The chain itself: under the predicted model, the likelihood ratio of any mixture of other chains has mean 1.
PBT(mimic_structure, 40, 400) {
  int n = g.irange(3, 10), pop = g.irange(200, 600), sel = g.irange(5, 60), T = 25; auto f = injective(g, n); seed(g); Recorder r(f, n); g.note() << "mimic n=" << n << " pop " << pop << " sel " << sel; Mimic a(n, pop); a.set_selection_size(sel); a.set_num_iterations(T); std::vector<Function *> fs{&r}; a.maximize(fs); REQUIRE(r.log.size() == size_t(1 + pop * T), "count", r.log.size()); const double lo = 1 / double(n), hi = 1 - 1 / double(n);
  double evidence = 0; int used = 0; size_t at = 1;
  for (int t = 0; t + 1 < T; t++, at += pop) {
    std::vector<size_t> o(pop); std::iota(o.begin(), o.end(), at); std::sort(o.begin(), o.end(), [&](size_t i, size_t j) { return r.log[i].v > r.log[j].v; }); VD mean(n); std::vector<std::vector<std::array<std::array<double, 2>, 2>>> c(n, std::vector<std::array<std::array<double, 2>, 2>>(n)); for (auto& q : c) for (auto& w : q) w = {{{0, 0}, {0, 0}}};
    for (int k = 0; k < sel; k++) { const BV& x = r.log[o[k]].x; for (int i = 0; i < n; i++) { mean[i] += double(x[i]) / sel; for (int j = 0; j < n; j++) c[i][j][x[i]][x[j]]++; } }
    auto ent = [&](int i, int j) { double h = 0; for (int v = 0; v < 2; v++) { double q = c[i][j][v][0] + c[i][j][v][1]; for (int w = 0; w < 2; w++) if (c[i][j][v][w]) h += c[i][j][v][w] * std::log(q / c[i][j][v][w]); } return h; };
    bool tie = false; auto least = [&](const std::vector<int>& left, std::function<double(int)> e) { int b = left[0]; for (int i : left) if (e(i) < e(b)) b = i; for (int i : left) if (i != b && e(i) < e(b) + 1e-9) tie = true; return b; };
    auto greedy = [&](int b) { std::vector<int> left(n), perm; std::iota(left.begin(), left.end(), 0); while (true) { perm.push_back(b); left.erase(std::find(left.begin(), left.end(), b)); if (left.empty()) break; int last = b; b = least(left, [&](int i) { return ent(last, i); }); } return perm; };
    std::vector<int> all(n); std::iota(all.begin(), all.end(), 0); int root = least(all, [&](int i) { return std::min(mean[i], 1 - mean[i]); }); std::vector<int> perm = greedy(root); if (tie) continue;
    auto loglik = [&](const std::vector<int>& p) { double l = 0; for (int k = 0; k < pop; k++) { const BV& x = r.log[at + pop + k].x; for (int i = 0; i < n; i++) { double q; if (i == 0) q = mean[p[0]]; else { auto& w = c[p[i - 1]][p[i]][x[p[i - 1]]]; q = w[0] + w[1] ? w[1] / (w[0] + w[1]) : 0.5; } q = clampd(q, lo, hi); l += std::log(x[p[i]] ? q : 1 - q); } } return l; };
    double l0 = loglik(perm), mx = -1e300; VD ls; for (int q = 0; q < n; q++) if (q != root) { ls.push_back(loglik(greedy(q))); mx = std::max(mx, ls.back()); } for (int q = 1; q + 1 < n; q++) { auto p = perm; std::swap(p[q], p[q + 1]); ls.push_back(loglik(p)); mx = std::max(mx, ls.back()); } double sum = 0; for (double l : ls) sum += std::exp(l - mx); double inc = mx + std::log(sum / ls.size()) - l0; evidence = std::max(0.0, evidence) + inc; used++;
    REQUIRE(evidence < 60, "structure", "after iteration " << t << " the samples speak against the chain of least conditional entropies by a factor exp(" << evidence << ")");
  }
  g.nontrivial(used > 3);
}
