// P01: every objective function computes its definition.
#include "functions.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/plugin.hh"
#include <sys/wait.h>
using namespace cat;
static void check_point(Fn& F, const BV& x, const char *tag = "value") {
  BV y = x; double v = F.f->evaluate(y), w = F.ref(x);
  REQUIRE(y == x, "argument-changed", F.name << " x=" << pbt::show(x));
  REQUIRE(F.same(v, w), tag, F.name << " x=" << pbt::show(x) << " value " << v << " expected " << w);
}
static void history(Gen& g, Fn& F) {
  std::vector<BV> xs; std::vector<double> vs; int k = g.irange(2, 5);
  for (int i = 0; i < k; i++) { xs.push_back(i && g.chance(1, 4) ? gen_near(g, xs[i - 1]) : gen_point(g, F)); check_point(F, xs[i]); vs.push_back(F.f->evaluate(xs[i])); }
  for (int t = 0; t < 4; t++) { int i = g.below(k); BV y = xs[i]; std::ostringstream sink;
    switch (g.below(4)) { case 0: F.f->display(sink); break; case 1: F.f->describe(y, sink); break; case 2: F.f->update(y, vs[i]); break; }
    double v = g.flag() ? F.f->evaluate(y) : F.f->evaluate_safely(y); REQUIRE(y == xs[i], "argument-changed", F.name); REQUIRE(v == vs[i], "not-a-function", F.name << " x=" << pbt::show(y) << " gave " << vs[i] << " then " << v); }
  REQUIRE(F.f->get_bv_size() == F.n, "bv-size", F.name);
}
static std::string kindname(const Fn& F) { return F.name.substr(0, F.name.find_first_of("([ 0123456789")); }
PBT(value, 60000, 600000) { seed(g); int n = gen_n(g, 1, 20); Fn F = gen_fn(g, n); g.label(kindname(F)); g.nontrivial(n > 2); g.note() << F.name; history(g, F); }
PBT(value_large, 8000, 80000) { seed(g); int n = g.chance(1, 25) ? g.irange(200, 600) : g.chance(1, 2) ? 9 * g.irange(3, 12) : gen_n(g, 20, 130); Fn F = gen_fn(g, n); g.label(kindname(F)); g.nontrivial(); g.note() << F.name; history(g, F); }
PBT(exhaustive, 3000, 30000) { seed(g); int n = g.chance(1, 4) ? 9 : gen_n(g, 1, 9); Fn F = gen_fn(g, n); g.label(kindname(F)); g.nontrivial(n > 2); g.note() << F.name; for (uint64_t v = 0; v < (1u << n); v++) check_point(F, from_int(v, n)); }
// Every kind at a size it supports, so that rare ones are not starved
PBT(each_kind, 30000, 300000) { seed(g); int k = g.below(K_COUNT), n = 0; std::vector<int> ns; for (int i = 1; i <= 40; i++) if (feasible(k, i) && (k != K_LONG || i <= 16)) ns.push_back(i); n = g.pick(ns); Fn F = make_kind(g, k, n); g.label(kindname(F)); g.nontrivial(n > 2); g.note() << F.name; history(g, F); }
PBT(long_path_large, 4000, 40000) { // beyond enumeration: value increases by one along the path
  int k = g.irange(2, 6), m = g.irange(2, 8), n = k * m; LongPath f(n, k); g.note() << "LongPath n=" << n << " k=" << k; g.nontrivial();
  auto p = long_path(n, k); for (int t = 0; t < 4; t++) { size_t i = t == 0 ? p.size() - 1 : g.below(p.size()); double v = f.evaluate(p[i]); REQUIRE(v == double(i + 1), "long-path", "index " << i << " value " << v); }
  BV x = g.rawbits(n); if (std::find(p.begin(), p.end(), x) == p.end()) { double w = 0; for (int i = 0; i < n; i++) w -= x[i] * (i < k ? n : 1); REQUIRE(f.evaluate(x) == w, "off-path", pbt::show(x)); }
}
PBT(long_path_huge, 4000, 40000) { // paths too long to enumerate: the point of a given index, computed from the recursive definition
  int k = g.irange(2, 9), m = g.irange(1, 49), n = k * m; LongPath f(n, k); uint64_t L = uint64_t(long_path_length(k, m)); g.note() << "LongPath n=" << n << " k=" << k; g.nontrivial();
  for (int t = 0; t < 4; t++) { uint64_t i = t == 0 ? L - 1 : g.flag() ? g.below(L) : std::min<uint64_t>(L - 1, uint64_t(long_path_length(k, g.irange(0, m - 1))) + g.below(2 * k)); BV x = long_path_point(k, m, i); double v = f.evaluate(x); REQUIRE(v == double(i + 1), "long-path", "index " << i << " of " << L << " value " << v << " x=" << pbt::show(x)); }
}
PBT(constructors_reject, 20000, 200000) { // parameters outside the documented range are refused
  int n = g.small(1, 40); int which = g.below(7), a = g.irange(-3, 12); bool thrown = false, bad = false; g.nontrivial(); g.note() << which << " n=" << n << " a=" << a;
  try { switch (which) {
    case 0: bad = (n & (n - 1)) != 0; { Hiff f(n); } break;
    case 1: bad = a < 1; { Jump f(n, a); } break;
    case 2: bad = a < 1; { DeceptiveJump f(n, a); } break;
    case 3: bad = a > n / 2 - 1; { FourPeaks f(n, a); } break;
    case 4: bad = a > n / 2 - 1; { SixPeaks f(n, a); } break;
    case 5: if (a < 1) a = 1; bad = n % a != 0; { Trap f(n, a); } break;
    default: if (a < 1) a = 1; bad = a < 2 || n % a != 0; { LongPath f(n, a); } break; }
  } catch (std::runtime_error&) { thrown = true; }
  REQUIRE(thrown == bad, "constructor", which << " n=" << n << " a=" << a << (thrown ? " refused" : " accepted"));
}
static Cnf read_cnf(const std::string& s, int& n, int& c) { std::istringstream in(s); std::string line; Cnf e; n = c = -1; while (std::getline(in, line)) { if (line.empty() || line[0] == 'c') continue; std::istringstream l(line); if (line[0] == 'p') { std::string a, b; l >> a >> b >> n >> c; continue; } std::vector<int> cl; int v; while (l >> v && v) cl.push_back(v); e.push_back(cl); } return e; }
PBT(maxsat_random, 12000, 120000) {
  seed(g); int n = g.small(1, 30), k = g.irange(1, std::min(n, 6)), c = g.small(1, 40); MaxSat f; int rep = g.irange(1, 2); bool planted = g.flag(); BV sol; for (int i = 0; i < rep; i++) { if (i) { n = g.small(k, 30); c = g.small(1, 40); } if (planted) { sol = g.bits(n); f.random(sol, k, c); } else f.random(n, k, c); }
  g.nontrivial(n > 2 && c > 1); g.note() << "n=" << n << " k=" << k << " c=" << c << (planted ? " planted" : "");
  std::string p = tmpfile_path("sat"); f.save(p); int fn, fc; Cnf e = read_cnf(slurp_file(p), fn, fc); unlink(p.c_str());
  REQUIRE(f.get_bv_size() == n && fn == n && fc == c && int(e.size()) == c, "random-shape", fn << " " << fc << " " << e.size());
  for (auto& cl : e) { std::set<int> vs; for (int l : cl) { REQUIRE(l != 0 && std::abs(l) <= n, "literal-range", l); vs.insert(std::abs(l)); } REQUIRE(int(cl.size()) == k && int(vs.size()) == k, "clause-shape", pbt::showv(cl)); }
  for (int t = 0; t < 3; t++) { BV x = g.bits(n); REQUIRE(f.evaluate(x) == sat_value(e, x), "random-value", pbt::show(x)); }
  if (planted) REQUIRE(f.evaluate(sol) == c, "planted", "solution satisfies " << f.evaluate(sol) << " of " << c);
}
PBT(random_signs, 300, 3000) { // every variable and both signs occur in random clauses (probability of a miss < 1e-30)
  seed(g); int n = g.irange(2, 6); MaxSat f; f.random(n, 2, 600); std::string p = tmpfile_path("sat"); f.save(p); int fn, fc; Cnf e = read_cnf(slurp_file(p), fn, fc); unlink(p.c_str()); std::set<int> s; for (auto& c : e) for (int l : c) s.insert(l); REQUIRE(int(s.size()) == 2 * n, "random-coverage", s.size() << " of " << 2 * n); g.nontrivial(); g.note() << n;
  NkLandscape nk; int k = g.irange(1, n - 1); std::vector<std::set<int>> seen(n); for (int t = 0; t < 150; t++) { nk.random(n, k); auto nb = nk_neighbors(nk); for (int i = 0; i < n; i++) seen[i].insert(nb[i].begin(), nb[i].end()); } for (int i = 0; i < n; i++) REQUIRE(int(seen[i].size()) == n, "nk-coverage", i << ": " << seen[i].size() << " k=" << k);
}
static W recover_linear(Function& f, int n) { W w(n); double b = f.evaluate(BV(n, 0)); for (int i = 0; i < n; i++) { BV x(n, 0); x[i] = 1; w[i] = f.evaluate(x) - b; } return w; }
PBT(random_instances, 6000, 60000) { // random() fills every coefficient with fresh finite numbers
  seed(g); int n = g.small(2, 20), which = g.below(6); g.nontrivial(); g.note() << which << " n=" << n; W w;
  switch (which) {
  case 0: { LinearFunction f; if (g.flag()) f.random(g.small(1, 30)); f.random(n); REQUIRE(f.get_bv_size() == n, "size", ""); w = recover_linear(f, n); break; }
  case 1: { WalshExpansion1 f; if (g.flag()) f.random(g.small(1, 30)); f.random(n); REQUIRE(f.get_bv_size() == n, "size", ""); w = recover_linear(f, n); break; }
  case 2: { Partition f; int ub = g.pick(std::vector<int>{1, 2, 10, 1000000}); if (g.flag()) f.random(g.small(1, 30), 5); f.random(n, ub); REQUIRE(f.get_bv_size() == n, "size", ""); double tot = -f.evaluate(BV(n, 0)); for (int i = 0; i < n; i++) { BV x(n, 0); x[i] = 1; std::ostringstream o; f.describe(x, o); size_t a = o.str().find("A = {"); REQUIRE(a != std::string::npos, "describe", o.str()); long v = std::atol(o.str().c_str() + a + 5); REQUIRE(v >= 1 && v <= ub, "partition-range", v << " not in 1.." << ub); REQUIRE(f.evaluate(x) == -std::fabs(tot - 2.0 * v), "partition-describe", o.str()); } return; }
  case 3: { EqualProducts f; f.random(n); REQUIRE(f.get_bv_size() == n, "size", ""); for (int t = 0; t < 3; t++) { BV x = g.bits(n), y = x; for (auto& b : y) b ^= 1; double v = f.evaluate(x); REQUIRE(v <= 0 && v >= -1 && pbt::close(v, f.evaluate(y), 1), "equal-products", v); } return; }
  case 4: { NearestNeighborIsingModel1 f; f.random(n); f.set_periodic_boundary_conditions(false); REQUIRE(f.get_bv_size() == n, "size", ""); for (int i = 0; i < n; i++) { BV x(n, 0), y(n, 1); x[i] = 1; y[i] = 0; double d = (f.evaluate(BV(n, 0)) - f.evaluate(x)) - (f.evaluate(BV(n, 1)) - f.evaluate(y)); w.push_back(d); } break; }
  default: { WalshExpansion2 f; f.random(n); REQUIRE(f.get_bv_size() == n, "size", ""); for (int i = 0; i < n; i++) { BV x(n, 0), y(n, 1); x[i] = 1; y[i] = 0; w.push_back((f.evaluate(BV(n, 0)) - f.evaluate(x)) - (f.evaluate(BV(n, 1)) - f.evaluate(y))); } }
  }
  std::set<double> s(w.begin(), w.end()); for (double v : w) REQUIRE(std::isfinite(v) && v != 0, "random-coefficient", pbt::showv(w)); REQUIRE(s.size() == w.size(), "random-repeats", pbt::showv(w));
}
PBT(walsh_random, 4000, 40000) { seed(g); int n = g.small(1, 10), m = g.small(1, 12); W w = gen_w(g, m); WalshExpansion f; f.generate(n, m, Feed(w)); REQUIRE(f.get_bv_size() == n, "size", ""); double s = 0; for (double v : w) s += v; REQUIRE(pbt::close(f.evaluate(BV(n, 0)), s, sumabs(w)), "walsh-at-zero", s); g.nontrivial(m > 1); g.note() << n << " " << m; for (int t = 0; t < 3; t++) REQUIRE(std::fabs(f.evaluate(g.bits(n))) <= sumabs(w) * (1 + 1e-9) + 1e-300, "walsh-bound", ""); }
PBT(tsp_value, 10000, 100000) {
  int n = g.small(1, 12); std::vector<std::vector<double>> d(n, std::vector<double>(n, 0)); Tsp f; std::vector<float> w; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { d[i][j] = d[j][i] = float(g.chance(1, 2) ? double(g.range(0, 50)) : g.real(0, 10)); w.push_back(d[i][j]); }
  size_t ix = 0; if (g.chance(1, 4)) { seed(g); f.random(g.small(1, 8)); } f.generate(n, [&]() { return double(w[ix++]); }); REQUIRE(f.get_num_elements() == n, "size", f.get_num_elements()); g.nontrivial(n > 3); g.note() << "tsp n=" << n;
  for (int t = 0; t < 3; t++) { auto p = gen_perm(g, n); hnco::permutation_t q(p.begin(), p.end()), q0 = q; double v = f.evaluate(q), s = 0; for (int i = 0; i < n; i++) s += d[p[i]][p[(i + 1) % n]]; REQUIRE(q == q0, "argument-changed", ""); if (n > 1) REQUIRE(pbt::close(v, -s, 1), "tsp", v << " expected " << -s); REQUIRE(f.evaluate(q) == v, "not-a-function", "");
    std::ostringstream o, want; f.describe(q, o); want << "Tour is: "; for (int c : p) want << c + 1 << ", "; REQUIRE(o.str().find(want.str()) == 0, "describe", o.str()); }
  std::ostringstream o; f.display(o); REQUIRE(o.str().find("TSP with " + std::to_string(n) + " cities") == 0, "display", o.str());
}
static int sudoku_ref(const std::vector<std::string>& b) { int r = 0; for (int u = 0; u < 27; u++) { int c[10] = {0}; for (int t = 0; t < 9; t++) { int i, j; if (u < 9) { i = u; j = t; } else if (u < 18) { i = t; j = u - 9; } else { i = (u - 18) / 3 * 3 + t / 3; j = (u - 18) % 3 * 3 + t % 3; } c[b[i][j] - '0']++; } for (int k = 1; k < 10; k++) r += std::abs(c[k] - 1); } return -r; }
static std::string pretty(const std::vector<std::string>& b) { std::string s; for (int i = 0; i < 9; i++) { s += b[i].substr(0, 3) + "|" + b[i].substr(3, 3) + "|" + b[i].substr(6, 3) + "\n"; if (i == 2 || i == 5) s += "---+---+---\n"; } return s; }
PBT(sudoku, 4000, 40000) {
  seed(g); Sudoku f; std::vector<std::string> b(9, std::string(9, '.')); int c; std::string p = tmpfile_path("sudoku"); int rounds = g.irange(1, 2); bool rnd = false;
  for (int r = 0; r < rounds; r++) { rnd = g.flag();
    if (rnd) { c = g.irange(1, 81); f.random(c); f.save(p); std::istringstream in(slurp_file(p)); for (auto& l : b) std::getline(in, l); }
    else { c = 0; for (auto& l : b) for (auto& ch : l) { ch = g.chance(1, 2) ? '.' : '1' + g.below(9); c += ch == '.'; } std::string s; for (auto& l : b) s += l + "\n"; spit(p, s); f.load(p); Sudoku h; } unlink(p.c_str()); }
  int dots = 0; for (auto& l : b) { REQUIRE(l.size() == 9, "save", l); for (char ch : l) dots += ch == '.'; } REQUIRE(dots == c && f.get_num_variables() == c, "empty-cells", dots << " empty, requested " << c << ", declared " << f.get_num_variables());
  std::ostringstream o; f.display(o); REQUIRE(o.str() == pretty(b), "display", o.str()); g.nontrivial(c > 1); g.note() << (rnd ? "random c=" : "loaded c=") << c;
  for (int t = 0; t < 2; t++) { std::vector<size_t> x(c); for (auto& v : x) v = g.below(9); auto full = b; int k = 0; for (auto& l : full) for (auto& ch : l) if (ch == '.') ch = '1' + x[k++]; double v = f.evaluate(x); REQUIRE(v == sudoku_ref(full), "sudoku", v << " expected " << sudoku_ref(full)); std::ostringstream d; f.describe(x, d); REQUIRE(d.str() == pretty(full), "describe", d.str()); REQUIRE(f.evaluate(x) == v, "not-a-function", ""); }
  if (rnd) { // the clues come from a complete valid grid: fill greedily by backtracking
    std::vector<std::string> s = b; std::function<bool(int, long&)> solve = [&](int pos, long& fuel) -> bool { while (pos < 81 && s[pos / 9][pos % 9] != '.') pos++; if (pos == 81) return true; if (--fuel < 0) return true; int i = pos / 9, j = pos % 9; for (char d = '1'; d <= '9'; d++) { bool ok = true; for (int t = 0; t < 9; t++) if (s[i][t] == d || s[t][j] == d || s[i / 3 * 3 + t / 3][j / 3 * 3 + t % 3] == d) ok = false; if (!ok) continue; s[i][j] = d; if (solve(pos + 1, fuel)) return true; } s[i][j] = '.'; return false; };
    long fuel = 20000; REQUIRE(solve(0, fuel), "sudoku-unsolvable", pretty(b)); }
}
PBT(factorization, 8000, 80000) {
  uint64_t N = g.chance(1, 4) ? g.irange(2, 40) : 2 + g.below(1ULL << g.irange(2, 30)); int b = bitlen(N), s1 = (b + 1) / 2, s2 = b - 1, n = s1 + s2; Factorization f; int how = g.below(2);
  if (how) { std::string p = tmpfile_path("num"); spit(p, std::to_string(N)); f.load(p); if (g.chance(1, 3)) { spit(p, "123456789"); f.load(p); spit(p, std::to_string(N)); f.load(p); } unlink(p.c_str()); }
  Factorization h(std::to_string(N)); Function& F = how ? (Function&)f : (Function&)h; REQUIRE(F.get_bv_size() == n, "size", F.get_bv_size() << " for " << N); g.nontrivial(b > 3); g.note() << "N=" << N;
  BV x = g.bits(n); if (g.chance(1, 2)) for (uint64_t p = 2; p < (1u << s1) && p < 2000; p++) if (N % p == 0 && N / p < (1ULL << s2)) { for (int i = 0; i < s1; i++) x[i] = (p >> (s1 - 1 - i)) & 1; for (int i = 0; i < s2; i++) x[s1 + i] = (N / p >> (s2 - 1 - i)) & 1; REQUIRE(F.evaluate(x) == 0, "factors", p); if (g.flag()) break; }
  REQUIRE(F.evaluate(x) == factor_value(N, s1, s2, x), "factorization", pbt::show(x)); std::ostringstream o, w; F.describe(x, o); uint64_t a = 0, c = 0; for (int i = 0; i < s1; i++) a = 2 * a + x[i]; for (int i = 0; i < s2; i++) c = 2 * c + x[s1 + i];
  w << "Found " << a << " (a) x " << c << " (b) = " << a * c << " (c), expected " << N << " (n)"; REQUIRE(o.str().find(w.str()) == 0, "describe", o.str()); REQUIRE(F.evaluate(x) == factor_value(N, s1, s2, x), "not-a-function", "");
}
// Numbers beyond any machine word: schoolbook multiplication on bits (least significant first)
static std::string decimal(std::vector<int> b) { std::vector<int> d{0}; for (int i = int(b.size()) - 1; i >= 0; i--) { int c = b[i]; for (auto& x : d) { x = 2 * x + c; c = x / 10; x %= 10; } if (c) d.push_back(c); } std::string s; for (int i = int(d.size()) - 1; i >= 0; i--) s += char('0' + d[i]); return s; }
static std::vector<int> product(const std::vector<int>& a, const std::vector<int>& b) { std::vector<int> c(a.size() + b.size() + 1, 0); for (size_t i = 0; i < a.size(); i++) if (a[i]) { int carry = 0; for (size_t j = 0; i + j < c.size(); j++) { int v = c[i + j] + (j < b.size() ? b[j] : 0) + carry; c[i + j] = v & 1; carry = v >> 1; } } return c; }
PBT(factorization_big, 3000, 30000) {
  int b = g.irange(31, 200); std::vector<int> N(b); for (auto& x : N) x = g.below(2); N[b - 1] = 1; std::vector<int> p, q; bool planted = g.flag();
  if (planted) { int k = g.irange(2, b / 2), m = b - k + g.irange(0, 1); p.resize(k); q.resize(m); for (auto& x : p) x = g.below(2); for (auto& x : q) x = g.below(2); p[k - 1] = q[m - 1] = 1; N = product(p, q); while (!N.back()) N.pop_back(); b = N.size(); }
  int s1 = (b + 1) / 2, s2 = b - 1, n = s1 + s2; Factorization f(decimal(N)); REQUIRE(f.get_bv_size() == n, "size", f.get_bv_size() << " for a number of " << b << " bits"); g.nontrivial(); g.note() << decimal(N) << (planted ? " composite" : "");
  for (int t = 0; t < 3; t++) { BV x = g.bits(n); if (planted && t == 0 && int(p.size()) <= s1 && int(q.size()) <= s2) { for (int i = 0; i < s1; i++) x[s1 - 1 - i] = i < int(p.size()) ? p[i] : 0; for (int i = 0; i < s2; i++) x[n - 1 - i] = i < int(q.size()) ? q[i] : 0; }
    std::vector<int> A(s1), B(s2); for (int i = 0; i < s1; i++) A[i] = x[s1 - 1 - i]; for (int i = 0; i < s2; i++) B[i] = x[n - 1 - i]; auto C = product(A, B); double w = 0; for (size_t i = 0; i < std::max(C.size(), N.size()); i++) if ((i < C.size() ? C[i] : 0) != (i < N.size() ? N[i] : 0)) w -= i + 1; double v = f.evaluate(x); REQUIRE(v == w, "factorization-big", decimal(N) << " x=" << pbt::show(x) << " value " << v << " expected " << w); }
}
PBT(cancellation_inherited, 3000, 30000) { int m = g.irange(1, 20); BV x = g.bits(9 * m); SummationCancellation a(9 * m); SinusSummationCancellation b(9 * m); g.nontrivial(m > 1); g.note() << m; REQUIRE(pbt::close(a.evaluate(x), cancel(x, false), m * m), "summation", pbt::show(x)); REQUIRE(pbt::close(b.evaluate(x), cancel(x, true), m * m), "sinus", pbt::show(x)); }
static const char *PLUGIN = "#include <stddef.h>\ndouble wsum(const unsigned char *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += x[i] ? (double)(i + 1) : -0.5; return s; }\ndouble len(const unsigned char *x, size_t n) { return (double)n; }\n";
PBT(plugin, 40, 200) {
  static std::string so; if (so.empty()) { std::string c = tmpfile_path("plug.c"); spit(c, PLUGIN); so = tmpfile_path("plug.so"); if (system(("cc -shared -fPIC -o " + so + " " + c).c_str()) != 0) { so.clear(); throw pbt::Discard(); } }
  int n = g.small(1, 50); FunctionPlugin f(n, so, "wsum"), h(n, so, "len"); BV x = g.bits(n); double s = 0; for (int i = 0; i < n; i++) s += x[i] ? i + 1 : -0.5; REQUIRE(f.get_bv_size() == n && f.evaluate(x) == s && h.evaluate(x) == n, "plugin", f.evaluate(x)); g.nontrivial(n > 1); g.note() << n;
  bool t = false; try { FunctionPlugin(n, so, "absent"); } catch (std::runtime_error&) { t = true; } REQUIRE(t, "plugin-missing-symbol", ""); t = false; try { FunctionPlugin(n, so + ".no", "wsum"); } catch (std::runtime_error&) { t = true; } REQUIRE(t, "plugin-missing-file", "");
}
