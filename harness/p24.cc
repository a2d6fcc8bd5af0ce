// P24: bit vector, sparse bit vector and permutation primitives.
#include "pbt.hh"
#include "hnco/bit-vector.hh"
#include "hnco/sparse-bit-vector.hh"
#include "hnco/permutation.hh"
#include "hnco/util.hh"
#include "hnco/random.hh"
#include <algorithm>
using namespace hnco;
using pbt::Gen;
typedef bit_vector_t BV;
static int dim(Gen& g, int lo = 0) { if (g.chance(1, 24)) return g.irange(200, 700); return g.chance(1, 4) ? g.irange(std::max(lo, 60), 140) : g.small(lo, 40); }
static bool mixed(const BV& x) { return std::count(x.begin(), x.end(), 1) > 0 && std::count(x.begin(), x.end(), 0) > 0; }

PBT(algebra, 100000, 1000000) {
  int n = dim(g); BV x = g.bits(n), y = g.bits(n); const BV x0 = x, y0 = y;
  g.nontrivial(n > 1 && mixed(x)); g.note() << pbt::show(x) << " " << pbt::show(y);
  int w = 0, d = 0, p = 0; for (int i = 0; i < n; i++) { w += x[i]; d += x[i] != y[i]; p ^= x[i] & y[i]; }
  REQUIRE(bv_hamming_weight(x) == w, "weight", pbt::show(x) << " " << bv_hamming_weight(x));
  REQUIRE(bv_hamming_distance(x, y) == d && bv_hamming_distance(y, x) == d, "distance", pbt::show(x) << " " << pbt::show(y) << " " << bv_hamming_distance(x, y));
  REQUIRE(bv_dot_product(x, y) == p, "dot", pbt::show(x) << " " << pbt::show(y));
  std::vector<bool> xb(n), yb(n); bv_to_vector_bool(xb, x); bv_to_vector_bool(yb, y);
  for (int i = 0; i < n; i++) REQUIRE(xb[i] == (x[i] == 1), "to-bool", i);
  REQUIRE(bv_hamming_weight(xb) == w, "weight-bool", ""); REQUIRE(bv_dot_product(x, yb) == p, "dot-bool", "");
  BV z(n, 1); bv_from_vector_bool(z, xb); REQUIRE(z == x, "from-bool", pbt::show(z));
  BV s(n, 9); bv_add(s, x, y); for (int i = 0; i < n; i++) REQUIRE(s[i] == (x[i] != y[i]), "add3", pbt::show(s));
  BV t = x; bv_add(t, y); REQUIRE(t == s, "add2", pbt::show(t)); bv_add(t, y); REQUIRE(t == x, "add-involution", pbt::show(t));
  bv_add(t, t, y); REQUIRE(t == s, "add-aliased", ""); t = x; BV u = x; bv_add(u, u); REQUIRE(bv_is_zero(u), "add-self", "");
  REQUIRE(x == x0 && y == y0, "const", "arguments changed");
  REQUIRE(bv_is_zero(x) == (w == 0), "is-zero", pbt::show(x)); REQUIRE(bv_is_valid(x), "is-valid", pbt::show(x));
  if (n) { BV b = x; b[g.below(n)] = g.irange(2, 255); REQUIRE(!bv_is_valid(b), "is-valid", "accepted invalid"); }
  BV c = x; bv_clear(c); REQUIRE(c == BV(n, 0), "clear", "");
  if (n) { int i = g.below(n); BV f = x; bv_flip(f, i); for (int k = 0; k < n; k++) REQUIRE(f[k] == (k == i ? !x[k] : x[k]), "flip", i); }
  sparse_bit_vector_t sb; for (int i = 0; i < n; i++) if (y[i]) sb.push_back(i);
  BV f = x; bv_flip(f, sb); REQUIRE(f == s, "flip-sparse", pbt::show(f));
  REQUIRE(bv_domain(x) == "bit vector (" + std::to_string(n) + " bits)", "domain", bv_domain(x));
  for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { bit_t q = a; REQUIRE(bit_add(a, b) == (a ^ b), "bit", ""); bit_flip(q, b); REQUIRE(q == (a ^ b), "bit", ""); q = a; bit_flip(q); REQUIRE(q == 1 - a, "bit", ""); }
}
PBT(text, 60000, 600000) {
  int n = dim(g); BV x = g.bits(n); g.nontrivial(n > 1 && mixed(x)); g.note() << pbt::show(x);
  std::ostringstream os; bv_display(x, os); REQUIRE(os.str() == pbt::show(x), "display", os.str());
  REQUIRE(bv_from_string(os.str()) == x, "from-string", os.str());
  BV y = g.bits(dim(g)); std::istringstream in(pbt::show(x) + "\n" + pbt::show(y) + (g.flag() ? "\n" : ""));
  BV r1 = bv_from_stream(in), r2 = bv_from_stream(in), r3 = bv_from_stream(in);
  REQUIRE(r1 == x, "from-stream", pbt::show(r1)); REQUIRE(r2 == y, "from-stream-next-line", pbt::show(r2)); REQUIRE(r3.empty(), "from-stream-end", "");
  std::string junk; for (int i = 0; i < n; i++) junk += char(g.irange(1, 126)); // anything: valid vector of the same length, '0' is 0
  BV j = bv_from_string(junk); REQUIRE(j.size() == junk.size() && bv_is_valid(j), "from-any-string", junk); for (int i = 0; i < n; i++) if (junk[i] == '0' || junk[i] == '1') REQUIRE(j[i] == junk[i] - '0', "from-any-string", junk);
}
PBT(integers, 60000, 600000) {
  int n = g.chance(1, 3) ? g.irange(60, 64) : g.irange(0, 64); BV x = g.bits(n); g.nontrivial(n > 1 && mixed(x)); g.note() << pbt::show(x);
  uint64_t v = 0; for (int i = 0; i < n; i++) if (x[i]) v |= uint64_t(1) << i;
  REQUIRE(bv_to_size_type(x) == v, "to-size", pbt::show(x) << " " << bv_to_size_type(x));
  BV y(n, 1); bv_from_size_type(y, v); REQUIRE(y == x, "from-size", pbt::show(y));
  uint64_t u = g.u64(); bv_from_size_type(y, u); for (int i = 0; i < n; i++) REQUIRE(y[i] == ((u >> i) & 1), "from-size-truncate", u);
  int N = g.irange(1, 140); BV z = g.bits(N); int st = g.below(N), en = g.irange(st + 1, std::min(N, st + 64));
  v = 0; for (int i = st; i < en; i++) if (z[i]) v |= uint64_t(1) << (i - st);
  REQUIRE(bv_to_size_type(z, st, en) == v, "to-size-slice", pbt::show(z) << " [" << st << "," << en << ")");
}
PBT(random_bits, 6000, 60000) {
  random::Generator::set_seed(g.seed32()); int n = dim(g); int k = n ? g.irange(0, n) : 0; if (g.chance(1, 4)) k = g.flag() ? n : 0;
  g.nontrivial(n > 1 && k > 0 && k < n); g.note() << "n=" << n << " k=" << k;
  for (int t = 0; t < 8; t++) { BV x = g.bits(n); bv_random(x, k); REQUIRE(bv_is_valid(x) && int(x.size()) == n && std::count(x.begin(), x.end(), 1) == k, "random-weight", pbt::show(x) << " k=" << k); }
  for (int t = 0; t < 4; t++) { BV x(n, 7); bv_random(x); REQUIRE(int(x.size()) == n && std::all_of(x.begin(), x.end(), [](int b) { return b == 0 || b == 1; }), "random-valid", pbt::show(x)); }
}
// Frequencies: Chernoff bounds with error probability below 1e-9 per case.
PBT(random_frequencies, 200, 2000) {
  random::Generator::set_seed(g.seed32()); int n = g.irange(2, 12), k = g.irange(1, n - 1); const int T = 20000; g.nontrivial(); g.note() << "n=" << n << " k=" << k;
  std::vector<double> c(n), u(n); BV x(n), y(n); int bits = 0; double p = g.unit();
  for (int t = 0; t < T; t++) { bv_random(x, k); bv_random(y); for (int i = 0; i < n; i++) { c[i] += x[i]; u[i] += y[i]; } bits += bit_random(p); }
  const double eps = 0.0275; // 2 exp(-2 T eps^2) < 2e-13
  for (int i = 0; i < n; i++) { REQUIRE(std::fabs(c[i] / T - double(k) / n) < eps, "weight-uniform", "position " << i << " " << c[i] / T); REQUIRE(std::fabs(u[i] / T - 0.5) < eps, "bit-uniform", "position " << i << " " << u[i] / T); }
  REQUIRE(std::fabs(bits / double(T) - p) < eps, "bit-random", p << " " << bits / double(T));
  REQUIRE(bit_random(0) == 0 && bit_random(1) == 1, "bit-random-extreme", "");
}
// every vector of weight k is produced, with equal frequency
PBT(random_support, 60, 600) {
  random::Generator::set_seed(g.seed32()); int n = g.irange(2, 6), k = g.irange(1, n - 1); std::map<BV, int> seen; const int T = 40000; BV x(n); g.nontrivial(); g.note() << "n=" << n << " k=" << k;
  for (int t = 0; t < T; t++) { bv_random(x, k); seen[x]++; }
  double c = 1; for (int i = 0; i < k; i++) c = c * (n - i) / (i + 1);
  REQUIRE(int(seen.size()) == int(c + .5), "support", seen.size() << " of " << c);
  for (auto& e : seen) REQUIRE(std::fabs(e.second / double(T) - 1 / c) < 0.02, "support-uniform", pbt::show(e.first) << " " << e.second); // 2 exp(-2T.0004) = 3e-14
}
PBT(permutations, 30000, 300000) {
  random::Generator::set_seed(g.seed32()); int n = dim(g); permutation_t p(n, -1); g.nontrivial(n > 2); g.note() << "n=" << n;
  REQUIRE(n == 0 || !perm_is_valid(p), "is-valid", ""); perm_identity(p); for (int i = 0; i < n; i++) REQUIRE(p[i] == i, "identity", i); REQUIRE(perm_is_valid(p), "is-valid", "");
  perm_random(p); auto s = p; std::sort(s.begin(), s.end()); for (int i = 0; i < n; i++) REQUIRE(s[i] == i, "random", pbt::showv(p)); REQUIRE(int(p.size()) == n && perm_is_valid(p), "random", "");
  std::vector<int> q(n); for (auto& e : q) e = g.irange(-5, 5); auto q0 = q; perm_shuffle(q); std::sort(q.begin(), q.end()); std::sort(q0.begin(), q0.end()); REQUIRE(q == q0, "shuffle-multiset", pbt::showv(q));
  std::ostringstream os; perm_display(p, os); std::string want; for (int e : p) want += std::to_string(e) + ", "; REQUIRE(os.str() == want + "last", "display", os.str());
  std::vector<int> v(p); // validity on near-permutations
  if (n) { switch (g.below(5)) { case 0: v[g.below(n)] = v[g.below(n)]; break; case 1: v[g.below(n)] = n; break; case 2: v[g.below(n)] = -1; break; case 3: v[g.below(n)] = g.irange(-2, n + 1); break; default: std::swap(v[g.below(n)], v[g.below(n)]); } }
  std::set<int> u(v.begin(), v.end()); bool ok = int(u.size()) == n; for (int e : v) ok = ok && e >= 0 && e < n;
  REQUIRE(perm_is_valid(v) == ok, "is-valid", pbt::showv(v)); g.label(ok ? "valid" : "invalid");
}
PBT(permutation_support, 60, 600) {
  random::Generator::set_seed(g.seed32()); int n = g.irange(2, 4); std::map<permutation_t, int> seen, seen2; const int T = 40000; permutation_t p(n), q(n); perm_identity(q); g.nontrivial(); g.note() << "n=" << n;
  for (int t = 0; t < T; t++) { perm_random(p); seen[p]++; perm_identity(q); perm_shuffle(q); seen2[q]++; }
  int f = 1; for (int i = 2; i <= n; i++) f *= i;
  for (auto* s : {&seen, &seen2}) { REQUIRE(int(s->size()) == f, "perm-support", s->size() << " of " << f); for (auto& e : *s) REQUIRE(std::fabs(e.second / double(T) - 1.0 / f) < 0.02, "perm-uniform", pbt::showv(e.first) << " " << e.second); }
}
PBT(sparse, 60000, 600000) {
  int m = g.small(0, 12), n = g.irange(1, 40); sparse_bit_vector_t s(m); for (auto& e : s) e = g.irange(0, n - 1); if (g.chance(3, 4)) std::sort(s.begin(), s.end());
  if (m && g.chance(1, 3)) s[g.below(m)] = g.chance(1, 2) ? -1 : n + g.irange(-1, 1); g.nontrivial(m > 1); g.note() << pbt::showv(s) << " n=" << n;
  bool sorted = true, neg = false, big = false; for (int i = 0; i < m; i++) { if (i && s[i] < s[i - 1]) sorted = false; neg = neg || s[i] < 0; big = big || s[i] >= n; }
  REQUIRE(sbv_is_valid(s) == (sorted && !neg), "sbv-valid", pbt::showv(s)); REQUIRE(sbv_is_valid(s, n) == (sorted && !neg && !big), "sbv-valid-n", pbt::showv(s) << " n=" << n);
  std::ostringstream os; sbv_display(s, os); std::string want; for (int e : s) want += std::to_string(e) + " "; REQUIRE(os.str() == want, "sbv-display", os.str());
}
PBT(utilities, 30000, 300000) {
  int a = g.irange(-5, 5), b = g.irange(-5, 8), i = g.irange(-7, 9); g.nontrivial(); g.note() << a << " " << b << " " << i;
  REQUIRE(is_in_range(i, a, b) == (i >= a && i < b), "range", ""); REQUIRE(is_in_range(i, b) == (i >= 0 && i < b), "range", "");
  double x = g.finite(), l = g.weight(), u = g.weight(); REQUIRE(is_in_interval(x, l, u) == (x >= l && x <= u), "interval", ""); REQUIRE(is_in_interval(l, l, l), "interval", "");
  REQUIRE(square(i) == i * i && square(l) == l * l, "square", "");
  double t = g.flag() ? g.real(-50, 50) : g.real(-2000, 2000), s = logistic(t); REQUIRE(s >= 0 && s <= 1, "logistic", t); REQUIRE(pbt::close(s, 1 / (1 + std::exp(-t)), 1e-280, 1e-12) , "logistic", t << " " << s); REQUIRE(pbt::close(s + logistic(-t), 1, 1, 1e-12), "logistic-sym", t);
  std::vector<int> v(g.small(0, 6)); for (auto& e : v) e = g.irange(-99, 99); std::string sep = g.flag() ? ", " : ""; std::string want; for (size_t k = 0; k < v.size(); k++) want += (k ? sep : "") + std::to_string(v[k]);
  REQUIRE(join(v.begin(), v.end(), sep) == want, "join", join(v.begin(), v.end(), sep));
  bool thrown = false; try { ensure(i > 0, "boo"); } catch (std::runtime_error& e) { thrown = std::string(e.what()) == "boo"; } REQUIRE(thrown == !(i > 0), "ensure", i);
}
