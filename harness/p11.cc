// P11: representations decode every bit string into the declared domain.
#include "common.hh"
#include "hnco/representations/all.hh"
#include <set>
using namespace hnco::representation;
typedef unsigned __int128 U;
typedef __int128 I;
static int bitlen(U v) { int b = 0; while (v) { b++; v >>= 1; } return b; }
// A bit vector holding the slice s at a random place, other bits random
struct Placed { BV x; int start; };
static Placed place(Gen& g, const BV& s) { int a = g.small(0, 9), b = g.small(0, 9); BV l = g.rawbits(a), r = g.rawbits(b); Placed p; p.start = a; p.x = l; p.x.insert(p.x.end(), s.begin(), s.end()); p.x.insert(p.x.end(), r.begin(), r.end()); return p; }
static BV slice(U u, int n) { BV s(n); for (int i = 0; i < n; i++) s[i] = i < 128 ? int((u >> i) & 1) : 0; return s; }
template<class T> static T gen_int(Gen& g) { typedef std::numeric_limits<T> L; switch (g.below(7)) { case 0: return T(g.range(-4, 4)); case 1: return T(g.range(-1000, 1000)); case 2: return T(L::max() - T(g.range(0, 3))); case 3: return T(L::min() + T(g.range(0, 3))); case 4: { int k = g.irange(0, int(sizeof(T) * 8) - 2); T v = T(T(1) << k) + T(g.range(-1, 1)); return g.flag() ? v : T(-v); } default: { uint64_t u = g.u64() >> g.irange(0, 60); return T(u); } } }
template<class T> static bool gen_interval(Gen& g, T& a, T& b) { // bounds whose difference is representable
  a = gen_int<T>(g); if (g.chance(1, 3)) { int k = g.irange(0, int(sizeof(T) * 8) - 1); I d = (I(1) << k) + g.range(-2, 1); I v = I(a) + d; if (d < 0 || v > I(std::numeric_limits<T>::max())) return false; b = T(v); } else b = gen_int<T>(g);
  if (a > b) std::swap(a, b); return a < b && I(b) - I(a) <= I(std::numeric_limits<T>::max());
}
template<class T, class R> static void int_check(Gen& g, R& r, T a, T b, int shift, const char *who) {
  int n = r.size(); auto one = [&](U u) { Placed p = place(g, slice(u, n)); T v = r.unpack(p.x, p.start); U d = u << shift; U span = U(I(b) - I(a)); if (d > span) d = span; I want = I(a) + I(d); REQUIRE(I(v) == want, "value", who << " [" << a << ".." << b << "] " << n << " bits, code " << uint64_t(u) << ": " << v << " instead of " << T(want)); };
  if (n <= 9) for (U u = 0; u < (U(1) << n); u++) one(u); else { U top = (U(1) << n) - 1; for (U u : {U(0), U(1), top, top - 1, top / 2, top / 2 + 1}) one(u); for (int i = 0; i < 12; i++) one(U(g.u64()) & top); U span = U(I(b) - I(a)); if (shift == 0) for (U u : {span, span - 1}) one(u); }
  if (shift == 0) { U span = U(I(b) - I(a)); REQUIRE((n >= 64 ? U(0) - 1 : (U(1) << n) - 1) >= span, "upper-bound-unreachable", who << " [" << a << ".." << b << "] has " << n << " bits"); }
}
template<class T> static void int_case(Gen& g, const char *tn) {
  typedef DyadicIntegerRepresentation<T> R; T a = 0, b = 0; int mode = g.below(4); if (mode < 3) { if (!gen_interval<T>(g, a, b)) throw pbt::Discard{}; } else { T n; do n = gen_int<T>(g); while (n < 0 && (n = -(n + 1), true)); if (n < 2) n = 2; a = 0; b = n - 1; }
  int exact = std::max(1, bitlen(U(I(b) - I(a)))); g.note() << tn << " [" << a << ".." << b << "] mode " << mode; g.nontrivial(exact > 1); g.label(std::string(tn) + (mode == 0 ? ":full" : mode == 1 ? ":size" : mode == 2 ? ":precision" : ":count"));
  if (mode == 0) { R r(a, b); REQUIRE(r.size() == exact, "size", r.size() << " bits for [" << a << ".." << b << "], which needs " << exact); int_check<T>(g, r, a, b, 0, "full"); }
  else if (mode == 1) { int s = g.irange(1, int(sizeof(T) * 8) - 1); R r(a, b, s); REQUIRE(r.size() == std::min(s, exact), "size", r.size() << " bits, asked " << s << ", exact " << exact); int_check<T>(g, r, a, b, exact - r.size(), "sized"); }
  else if (mode == 2) { int p = g.chance(1, 3) ? (1 << g.irange(0, 30)) : g.chance(1, 2) ? g.irange(1, 20) : g.irange(1, 2000000000); g.note() << " precision " << p; R r(a, b, typename R::Precision(p)); int s = exact - r.size(); REQUIRE(r.size() >= 1 && s >= 0, "size", r.size()); REQUIRE((U(1) << s) <= U(p), "precision", "step 2^" << s << " exceeds the precision " << p); if (r.size() > 1) REQUIRE((U(1) << (s + 1)) > U(p), "too-many-bits", r.size() << " bits for precision " << p << " on " << exact); int_check<T>(g, r, a, b, s, "precision");
    bool t = false; try { R bad(a, b, typename R::Precision(g.irange(-5, 0))); } catch (std::runtime_error&) { t = true; } REQUIRE(t, "bad-precision-accepted", ""); }
  else { R r(T(b + 1)); REQUIRE(r.size() == exact, "size", r.size() << " bits for " << b + 1 << " values"); int_check<T>(g, r, a, b, 0, "count"); }
}
PBT(integer_int, 40000, 400000) { int_case<int>(g, "int"); }
PBT(integer_long, 40000, 400000) { int_case<long>(g, "long"); }
template<class T> static void float_case(Gen& g, const char *tn) {
  typedef DyadicFloatRepresentation<T> R; T a, b; switch (g.below(4)) { case 0: a = T(g.range(-8, 8)); b = a + T(g.range(1, 16)); break; case 1: a = T(g.real(-1, 1)); b = T(a + g.real(1e-3, 2)); break; case 2: a = T(g.weight()); b = T(a + std::fabs(g.weight()) + 1); break; default: { double m = std::ldexp(1.0, g.irange(-60, 60)); a = T(-m * g.unit()); b = T(m * (1 + g.unit())); } }
  if (!(a < b)) throw pbt::Discard{};
  const T len = b - a; const int mant = std::numeric_limits<T>::digits; double mag = std::max(std::fabs(double(a)), std::fabs(double(b))); const double eps = std::numeric_limits<T>::epsilon();
  bool byprec = g.flag(); std::shared_ptr<R> r; g.note() << tn << " [" << a << "," << b << ")";
  if (byprec) { T p = g.flag() ? T(len / std::ldexp(1.0, g.irange(0, 20))) : T(len * std::pow(10.0, -g.real(0, 9))); if (g.chance(1, 6)) p = T(len * g.real(0.5, 8)); if (!(p > 0)) throw pbt::Discard{}; g.note() << " precision " << p; r.reset(new R(a, b, p)); double step = double(len) * std::ldexp(1.0, -r->size()); REQUIRE(step <= double(p) * (1 + 1e-5) || r->size() == 0, "precision", "step " << step << " exceeds precision " << p << " with " << r->size() << " bits"); if (r->size() > 1) REQUIRE(2 * step > double(p) * (1 - 1e-5), "too-many-bits", r->size() << " bits, precision " << p); }
  else { int s = g.small(1, 70); g.note() << " size " << s; r.reset(new R(a, b, s)); REQUIRE(r->size() == s, "size", r->size() << " asked " << s); }
  int n = r->size(); REQUIRE(n >= 1, "size", n); g.nontrivial(n > 1); g.label(std::string(tn) + (byprec ? ":precision" : ":size")); double step = double(len) * std::ldexp(1.0, -n); bool resolved = step >= 8 * eps * mag && n < mant - 2;
  T prev = 0; bool hp = false; auto one = [&](const BV& s) { Placed p = place(g, s); T v = r->unpack(p.x, p.start); long double k = 0; for (int i = 0; i < n; i++) if (s[i]) k += std::ldexp(1.0L, -(i + 1)); long double want = (long double)a + (long double)len * k; REQUIRE(v >= a && v <= b + (resolved ? 0 : 8 * eps * mag), "outside", v << " not in [" << a << "," << b << ") code " << pbt::show(s)); if (resolved) REQUIRE(v < b, "outside", "upper bound reached: " << v << " code " << pbt::show(s)); REQUIRE(std::fabs(double((long double)v - want)) <= 8 * eps * mag, "value", pbt::show(s) << ": " << v << " instead of " << double(want)); return v; };
  REQUIRE(one(BV(n, 0)) == a, "lower-bound-unreachable", a); one(BV(n, 1));
  if (n <= 8) { for (unsigned u = 0; u < (1u << n); u++) { BV s(n); for (int i = 0; i < n; i++) s[i] = (u >> (n - 1 - i)) & 1; T v = one(s); if (hp && resolved) REQUIRE(v > prev, "order", "codes in binary order do not give increasing values"); prev = v; hp = true; } } else for (int i = 0; i < 15; i++) one(g.bits(n));
}
PBT(float_double, 40000, 400000) { float_case<double>(g, "double"); }
PBT(float_float, 15000, 150000) { float_case<float>(g, "float"); }
PBT(complex_numbers, 20000, 200000) {
  typedef DyadicFloatRepresentation<double> D; typedef DyadicIntegerRepresentation<long> L;
  if (g.flag()) { double a = g.real(-9, 9), b = a + g.real(0.1, 5), c = g.real(-9, 9), d = c + g.real(0.1, 5); int s = g.irange(1, 30), t = g.irange(1, 30); D re(a, b, s), im(c, d, t); bool same = g.chance(1, 4); ComplexRepresentation<D> r = same ? ComplexRepresentation<D>(re) : ComplexRepresentation<D>(re, im); if (same) { t = s; im = re; } g.note() << "[" << a << "," << b << ")x[" << c << "," << d << ") " << s << "+" << t; g.nontrivial();
    REQUIRE(r.size() == s + t, "size", r.size()); for (int i = 0; i < 8; i++) { BV x = g.bits(s), y = g.bits(t), z = x; z.insert(z.end(), y.begin(), y.end()); Placed p = place(g, z); auto v = r.unpack(p.x, p.start); REQUIRE(v.real() == re.unpack(x, 0) && v.imag() == im.unpack(y, 0), "parts", v.real() << "," << v.imag() << " instead of " << re.unpack(x, 0) << "," << im.unpack(y, 0)); } }
  else { long a = g.range(-50, 50), b = a + g.range(1, 100), c = g.range(-50, 50), d = c + g.range(1, 100); L re(a, b), im(c, d); ComplexRepresentation<L> r(re, im); g.note() << "integer rectangle"; g.nontrivial(); REQUIRE(r.size() == re.size() + im.size(), "size", r.size()); for (int i = 0; i < 8; i++) { BV x = g.bits(re.size()), y = g.bits(im.size()), z = x; z.insert(z.end(), y.begin(), y.end()); Placed p = place(g, z); auto v = r.unpack(p.x, p.start); REQUIRE(v.real() == re.unpack(x, 0) && v.imag() == im.unpack(y, 0), "parts", v.real()); } }
}
PBT(categorical_integer, 15000, 150000) {
  int k = g.chance(1, 5) ? g.irange(2, 2000000000) : g.chance(1, 3) ? (1 << g.irange(1, 20)) + g.irange(0, 1) : g.irange(2, 300); IntegerCategoricalRepresentation r(k); g.note() << k << " categories"; g.nontrivial(k > 2); int n = bitlen(U(k - 1)); REQUIRE(r.size() == n, "size", r.size() << " bits for " << k << " categories"); std::set<size_t> seen;
  auto one = [&](uint64_t u) { Placed p = place(g, slice(u, n)); size_t c = r.unpack(p.x, p.start); REQUIRE(c < size_t(k), "outside", c << " of " << k); REQUIRE(c == u % uint64_t(k), "value", "code " << u << ": " << c); seen.insert(c); };
  if (n <= 9) { for (uint64_t u = 0; u < (1ULL << n); u++) one(u); REQUIRE(int(seen.size()) == k, "unreached", seen.size() << " of " << k); } else { one(0); one(k - 1); one((1ULL << n) - 1); for (int i = 0; i < 10; i++) one(g.below(1ULL << n)); }
}
// Linear code: the category is a linear function of the bits (modulo 2), all
// columns of the code distinct and nonzero, reduced modulo the number of
// categories.
PBT(categorical_linear, 4000, 40000) {
  int k = g.chance(1, 3) ? (1 << g.irange(1, 6)) + g.irange(0, 1) : g.irange(2, 70); LinearCategoricalRepresentation r(k); int m = bitlen(U(k - 1)), n = (1 << m) - 1; g.note() << k << " categories"; g.nontrivial(k > 2); REQUIRE(r.size() == n, "size", r.size() << " bits for " << k << " categories");
  auto un = [&](const BV& s) { Placed p = place(g, s); size_t c = r.unpack(p.x, p.start); REQUIRE(c < size_t(k), "outside", c << " of " << k); return c; };
  REQUIRE(un(BV(n, 0)) == 0, "zero-code", un(BV(n, 0))); std::set<size_t> seen; seen.insert(0); std::vector<size_t> col(n); for (int j = 0; j < n; j++) { BV s(n, 0); s[j] = 1; seen.insert(un(s)); } REQUIRE(int(seen.size()) == k, "unreached", "single bits reach " << seen.size() << " of " << k << " categories");
  if (k == 1 << m) { std::set<size_t> d; for (int j = 0; j < n; j++) { BV s(n, 0); s[j] = 1; col[j] = un(s); REQUIRE(col[j] != 0, "zero-column", j); d.insert(col[j]); } REQUIRE(int(d.size()) == n, "columns", d.size()); for (int t = 0; t < 10; t++) { BV s = g.bits(n); size_t want = 0; for (int j = 0; j < n; j++) if (s[j]) want ^= col[j]; REQUIRE(un(s) == want, "not-linear", pbt::show(s) << ": " << un(s) << " instead of " << want); } }
  else for (int t = 0; t < 10; t++) un(g.bits(n));
}
PBT(value_set, 20000, 200000) {
  int k = g.small(1, 60); std::vector<double> v(k); for (auto& x : v) x = g.finite(); if (k > 1 && g.chance(1, 4)) v[g.below(k)] = v[0]; g.note() << k << " values " << pbt::showv(v); g.nontrivial(k > 1); ValueSetRepresentation<double> r(v); std::vector<double> s = v; std::sort(s.begin(), s.end()); int n = std::max(1, bitlen(U(k - 1))); REQUIRE(r.size() == n, "size", r.size() << " bits for " << k << " values");
  for (int u = 0; u < (1 << n); u++) { Placed p = place(g, slice(u, n)); double x = r.unpack(p.x, p.start); REQUIRE(x == s[std::min(u, k - 1)], "value", "code " << u << ": " << x << " instead of " << s[std::min(u, k - 1)]); }
}
PBT(value_set_int, 5000, 50000) { int k = g.small(1, 40); std::vector<int> v(k); for (auto& x : v) x = g.irange(-1000, 1000); g.note() << pbt::showv(v); g.nontrivial(k > 1); ValueSetRepresentation<int> r(v); std::vector<int> s = v; std::sort(s.begin(), s.end()); for (int u = 0; u < (1 << r.size()); u++) { Placed p = place(g, slice(u, r.size())); REQUIRE(r.unpack(p.x, p.start) == s[std::min(u, k - 1)], "value", u); } }
static std::vector<int> unperm(Gen& g, PermutationRepresentation& r, const BV& s, int n) { Placed p = place(g, s); hnco::permutation_t q(n); for (auto& v : q) v = g.irange(0, n - 1); r.unpack(p.x, p.start, q); REQUIRE(int(q.size()) == n, "length", q.size()); std::vector<char> seen(n, 0); for (int v : q) { REQUIRE(v >= 0 && v < n && !seen[v], "not-a-permutation", pbt::showv(q)); seen[v] = 1; } return q; }
PBT(permutation, 20000, 200000) { // elements sorted by their keys
  seed(g); int n = g.chance(1, 6) ? g.irange(20, 80) : g.small(1, 12), add = g.chance(1, 8) ? g.irange(20, 55) : g.small(1, 12); int e = bitlen(U(n - 1)) + add; PermutationRepresentation r(n, add); g.note() << n << " elements, " << add << " additional bits"; g.nontrivial(n > 1); REQUIRE(r.size() == n * e, "size", r.size() << " bits, " << n << "*" << e); REQUIRE(r.get_num_elements() == n, "elements", r.get_num_elements());
  for (int t = 0; t < 4; t++) { std::vector<uint64_t> key(n); uint64_t top = (1ULL << e) - 1; int mode = g.below(3); for (auto& k : key) k = mode == 0 ? g.below(top + 1) : mode == 1 ? g.below(3) : top - g.below(3); BV s; for (int i = 0; i < n; i++) { BV c = slice(key[i], e); s.insert(s.end(), c.begin(), c.end()); } auto q = unperm(g, r, s, n); for (int i = 0; i + 1 < n; i++) REQUIRE(key[q[i]] <= key[q[i + 1]], "order", "element " << q[i] << " (key " << key[q[i]] << ") before element " << q[i + 1] << " (key " << key[q[i + 1]] << ")"); }
  auto want = gen_perm(g, n); BV s(n * e); for (int i = 0; i < n; i++) { BV c = slice(uint64_t(i), e); std::copy(c.begin(), c.end(), s.begin() + want[i] * e); } auto q = unperm(g, r, s, n); REQUIRE(q == want, "unreached", pbt::showv(q) << " instead of " << pbt::showv(want));
}
PBT(permutation_ties, 60, 600) { // tied elements come in either order, about equally often
  seed(g); int n = g.irange(2, 8); PermutationRepresentation r(n, g.irange(1, 4)); g.note() << n << " elements with equal keys"; g.nontrivial(); BV s(r.size(), g.flag()); int T = 2000; std::vector<std::vector<int>> first(n, std::vector<int>(n, 0)); for (int t = 0; t < T; t++) { auto q = unperm(g, r, s, n); for (int i = 0; i < n; i++) first[i][q[i]]++; } double p = 1.0 / n, sd = std::sqrt(T * p * (1 - p)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(std::fabs(first[i][j] - T * p) <= 7 * sd + 1, "ties", "element " << j << " at place " << i << " " << first[i][j] << " times of " << T);
}
PBT(safe_difference, 20000, 200000) { // the documented predicate on bounds
  if (g.flag()) { int a = gen_int<int>(g), b = gen_int<int>(g); if (a > b) std::swap(a, b); if (a == b) throw pbt::Discard{}; g.note() << a << " " << b; g.nontrivial(); REQUIRE(difference_is_safe(a, b) == (I(b) - I(a) <= I(std::numeric_limits<int>::max())), "predicate", a << " " << b); }
  else { long a = gen_int<long>(g), b = gen_int<long>(g); if (a > b) std::swap(a, b); if (a == b) throw pbt::Discard{}; g.note() << a << " " << b; g.nontrivial(); REQUIRE(difference_is_safe(a, b) == (I(b) - I(a) <= I(std::numeric_limits<long>::max())), "predicate", a << " " << b); }
}
