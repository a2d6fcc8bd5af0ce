// P09: saving then loading restores an identical object.
#include "functions.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/maps/map.hh"
using namespace cat; using namespace hnco::map;
// What can be observed of an object, in a form that can be compared exactly
typedef std::vector<std::string> Obs;
static std::string hex(double v) { if (std::isnan(v)) return "nan"; char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
struct Points { std::vector<BV> raw; std::vector<std::vector<int>> flips; };
static Points gen_points(Gen& g) { Points p; for (int i = 0; i < 5; i++) { p.raw.push_back(g.bits(130)); std::vector<int> f; for (int j = 0; j < 130; j++) if (g.chance(1, 4)) f.push_back(j); p.flips.push_back(f); } return p; }
static std::vector<BV> points_for(const Points& p, int n) { std::vector<BV> r; if (n <= 6) for (uint64_t v = 0; v < (1u << n); v++) r.push_back(from_int(v, n)); for (auto x : p.raw) { x.resize(n); r.push_back(x); } return r; }
static Obs observe(Function& f, const Points& p) {
  Obs o; int n = f.get_bv_size(); o.push_back("size " + std::to_string(n)); std::ostringstream d; f.display(d); o.push_back("display " + d.str());
  bool known = f.has_known_maximum(); o.push_back(known ? "maximum " + hex(f.get_maximum()) : "no maximum"); bool inc = f.provides_incremental_evaluation(); o.push_back(inc ? "incremental" : "not incremental");
  for (auto& x : points_for(p, n)) { BV y = x; o.push_back("value at " + pbt::show(x) + " " + hex(f.evaluate(y))); std::ostringstream s; f.describe(y, s); o.push_back("describe " + s.str()); }
  if (inc) for (size_t i = 0; i < p.raw.size(); i++) { BV x = p.raw[i]; x.resize(n); hnco::sparse_bit_vector_t fl; for (int j : p.flips[i]) if (j < n) fl.push_back(j); o.push_back("incremental " + hex(f.evaluate_incrementally(x, f.evaluate(x), fl))); }
  return o;
}
static Obs observe(Map& m, const Points& p) {
  Obs o; int n = m.get_input_size(), k = m.get_output_size(); o.push_back("sizes " + std::to_string(n) + " " + std::to_string(k)); o.push_back(m.is_surjective() ? "surjective" : "not surjective"); std::ostringstream d; m.display(d); o.push_back("display " + d.str());
  for (auto& x : points_for(p, n)) { BV y(k); m.map(x, y); o.push_back("image of " + pbt::show(x) + " " + pbt::show(y)); } return o;
}
static Obs observe(Sudoku& f, const Points& p) {
  Obs o; int n = f.get_num_variables(); o.push_back("variables " + std::to_string(n)); std::ostringstream d; f.display(d); o.push_back("display " + d.str());
  for (auto& x : p.raw) { std::vector<size_t> v(n); for (int i = 0; i < n; i++) v[i] = (x[i] + 2 * x[(i * 7 + 1) % 130] + 4 * x[(i * 3 + 5) % 130]) % 9; o.push_back("value " + hex(f.evaluate(v))); std::ostringstream s; f.describe(v, s); o.push_back("describe " + s.str()); } return o;
}
static void same(const Obs& a, const Obs& b, const char *tag, const std::string& what) {
  REQUIRE(a.size() == b.size(), tag, what << ": " << a[0] << " / " << b[0]); for (size_t i = 0; i < a.size(); i++) REQUIRE(a[i] == b[i], tag, what << ": original: " << a[i].substr(0, 300) << "   loaded: " << b[i].substr(0, 300));
}
static W nums(Gen& g, int n) { W w(n); int m = g.below(4); for (auto& v : w) v = m == 0 ? g.finite() : m == 1 ? g.weight() : m == 2 ? g.real(-1, 1) : double(g.range(-3, 3)); return w; }
static int size(Gen& g) { if (g.chance(1, 60)) return g.irange(200, 400); return g.chance(1, 8) ? g.irange(20, 120) : g.small(1, 16); }
static void make(Gen& g, LinearFunction& f) { int n = size(g); f.generate(n, Feed(nums(g, n))); g.nontrivial(n > 2); }
static void make(Gen& g, WalshExpansion1& f) { int n = size(g); f.generate(n, Feed(nums(g, n))); g.nontrivial(n > 2); }
static void make(Gen& g, EqualProducts& f) { int n = size(g); f.generate(n, Feed(nums(g, n))); g.nontrivial(n > 2); }
static void make(Gen& g, Partition& f) { int n = size(g); int hi = g.pick(std::vector<int>{3, 100, 1000000, 2147483647}); f.generate(n, [&]() { return g.irange(1, hi); }); g.nontrivial(n > 2); }
static void make(Gen& g, WalshExpansion2& f) { int n = std::min(size(g), 40); switch (g.below(4)) { case 0: f.generate_ising1_long_range(n, g.real(0, 3)); break; case 1: f.generate_ising1_long_range_periodic(n, g.real(0, 3)); break; default: f.generate(n, Feed(nums(g, n)), Feed(nums(g, n * (n - 1) / 2))); } g.nontrivial(n > 2); }
static void make(Gen& g, WalshExpansion& f) { int n = size(g), m = g.small(1, 25); W w = nums(g, m); std::vector<WalshTerm> t(m); for (int i = 0; i < m; i++) { BV u = g.bits(n); t[i].feature.assign(u.begin(), u.end()); t[i].coefficient = w[i]; } f.set_terms(t); g.nontrivial(n > 2 && m > 1); }
static void make(Gen& g, NearestNeighborIsingModel1& f) { int n = size(g); f.generate(n, Feed(nums(g, n)), Feed(nums(g, n))); f.set_periodic_boundary_conditions(g.flag()); g.nontrivial(n > 2); }
static void make(Gen& g, NearestNeighborIsingModel2& f) { int r = g.small(1, 9), c = g.small(1, 9); f.generate(r, c, Feed(nums(g, 2 * r * c)), Feed(nums(g, r * c))); f.set_periodic_boundary_conditions(g.flag()); g.nontrivial(r > 1 && c > 1); }
static void make(Gen& g, NkLandscape& f) { int n = g.small(2, 30), k = g.irange(1, std::min(5, n - 1)); f.generate(n, k, Feed(nums(g, n << (k + 1)))); g.nontrivial(n > 2); }
static void make(Gen& g, MaxSat& f) { int n = g.small(1, 30), c = g.small(1, 30); if (g.flag()) { int k = g.irange(1, std::min(n, 6)); if (g.flag()) f.random(n, k, c); else f.random(g.bits(n), k, c); } else { std::string p = tmpfile_path("in.cnf"); spit(p, cnf_text(gen_cnf(g, n, c, false), n)); f.load(p); } g.nontrivial(n > 2 && c > 1); }
static void make(Gen& g, MaxNae3Sat& f) { int n = g.small(1, 30), c = g.small(1, 30); std::string p = tmpfile_path("in.cnf"); spit(p, cnf_text(gen_cnf(g, n, c, true), n)); f.load(p); g.nontrivial(n > 2 && c > 1); }
static void make(Gen& g, Sudoku& f) { if (g.flag()) f.random(g.irange(1, 81)); else { std::string s; for (int i = 0; i < 81; i++) { s += g.chance(2, 3) ? '.' : char('1' + g.below(9)); if (i % 9 == 8) s += "\n"; } std::string p = tmpfile_path("in.sud"); spit(p, s); f.load(p); } g.nontrivial(); }
static void make(Gen& g, Translation& m) { int n = size(g); if (g.flag()) m.random(n); else m.set_bv(g.bits(n)); g.nontrivial(n > 2); }
static void make(Gen& g, hnco::map::Permutation& m) { int n = size(g); m.random(n); g.nontrivial(n > 2); }
template<class M> static void make_matrix(Gen& g, M& m) { int r = size(g), c = size(g); bool s = g.flag(); if (s && r > c) std::swap(r, c); m.random(r, c, s); g.nontrivial(r > 1 && c > 1); }
static void make(Gen& g, LinearMap& m) { make_matrix(g, m); }
static void make(Gen& g, AffineMap& m) { make_matrix(g, m); }
static void make(Gen& g, TsAffineMap& m) { int n = std::max(2, size(g)); m.random(n, g.small(0, 30), g.below(6)); if (g.chance(1, 4)) m.invert(); g.nontrivial(n > 2); }
template<class T> static bool refuses(T f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
template<class T> static void roundtrip(Gen& g, const char *name) {
  seed(g); g.label(name); g.note() << name << ":"; Points pts = gen_points(g); std::vector<std::unique_ptr<T>> objs; objs.emplace_back(new T); make(g, *objs[0]); int rounds = g.irange(1, 3), cur = 0;
  for (int r = 0; r < rounds; r++) {
    T& a = *objs[cur]; Obs before = observe(a, pts); std::string p1 = tmpfile_path("a"), p2 = tmpfile_path("b");
    if (g.chance(1, 3)) spit(p1, std::string(g.small(1, 20000), 'x')); // an older, possibly longer file is replaced
    a.save(p1); std::string bytes = slurp_file(p1); same(before, observe(a, pts), "save-changed-object", name);
    { a.save(p2); REQUIRE(slurp_file(p2) == bytes, "save-twice", name << " saved twice gives two different files"); unlink(p2.c_str()); }
    int mode = g.below(4); T *b = nullptr; g.note() << " " << before[0] << (mode == 0 ? " fresh" : mode == 1 ? " used" : mode == 2 ? " regenerated" : " itself");
    if (mode == 0) { objs.emplace_back(new T); b = objs.back().get(); cur = objs.size() - 1; }
    else if (mode == 1) { objs.emplace_back(new T); b = objs.back().get(); cur = objs.size() - 1; make(g, *b); observe(*b, pts); }
    else if (mode == 2) { b = &a; make(g, *b); if (g.flag()) observe(*b, pts); }
    else b = &a;
    if (mode && g.chance(1, 8)) { Obs o = observe(*b, pts); REQUIRE(refuses([&] { b->load(tmpfile_path("missing")); }), "missing-file", name << ": loading a file that does not exist reports nothing"); same(o, observe(*b, pts), "missing-file-changed-object", name); }
    b->load(p1); REQUIRE(slurp_file(p1) == bytes, "load-changed-file", name); same(before, observe(*b, pts), "load-differs", name);
    b->save(p2); REQUIRE(slurp_file(p2) == bytes, "resave-differs", name << ": the file saved by the loaded object differs: " << slurp_file(p2).substr(0, 200) << " / " << bytes.substr(0, 200));
    unlink(p1.c_str()); unlink(p2.c_str());
    if (g.chance(1, 3)) make(g, *objs[cur]);
  }
  if (g.chance(1, 10)) { T& a = *objs[cur]; REQUIRE(refuses([&] { a.save(tmpfile_path("no/such/folder/file")); }), "unwritable", name << ": saving into a missing folder reports nothing"); REQUIRE(refuses([&] { a.save("/dev/full"); }), "disk-full", name << ": saving to a full device reports nothing"); }
}
#define RT(T, q) PBT(T##_, q, 10 * q) { roundtrip<T>(g, #T); }
RT(LinearFunction, 1500) RT(WalshExpansion1, 1500) RT(EqualProducts, 1500) RT(Partition, 1500) RT(WalshExpansion2, 1200) RT(WalshExpansion, 1500) RT(NearestNeighborIsingModel1, 1500) RT(NearestNeighborIsingModel2, 1500) RT(NkLandscape, 1200) RT(MaxSat, 1500) RT(MaxNae3Sat, 1500) RT(Sudoku, 800) RT(Translation, 1500) RT(LinearMap, 1200) RT(AffineMap, 1200) RT(TsAffineMap, 1500)
PBT(Permutation_, 1500, 15000) { roundtrip<hnco::map::Permutation>(g, "Permutation"); }
// Several objects saved to several files in any order: each file holds its own object
PBT(interleaved, 1500, 15000) {
  seed(g); Points pts = gen_points(g); int k = g.irange(2, 5); std::vector<NearestNeighborIsingModel1> f(k); std::vector<Obs> o(k); g.nontrivial(); g.note() << k << " models";
  for (int i = 0; i < k; i++) { make(g, f[i]); o[i] = observe(f[i], pts); f[i].save(tmpfile_path("i" + std::to_string(i))); }
  for (int t = 0; t < 2 * k; t++) { int i = g.below(k), j = g.below(k); f[j].load(tmpfile_path("i" + std::to_string(i))); same(o[i], observe(f[j], pts), "interleaved", "model"); }
  for (int i = 0; i < k; i++) unlink(tmpfile_path("i" + std::to_string(i)).c_str());
}
