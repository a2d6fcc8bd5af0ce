// P08: maps between hypercubes and transvections.
#include "common.hh"
#include "hnco/maps/map.hh"
#include "hnco/maps/transvection.hh"
#include "hnco/bit-matrix.hh"
using namespace hnco; using namespace hnco::map;
typedef std::vector<BV> M;
static int dim(Gen& g, int lo = 1) { if (g.chance(1, 150)) return g.irange(100, 270); return g.chance(1, 10) ? g.irange(30, 70) : g.small(lo, 12); }
static BV apply(Map& m, const BV& x, Gen& g) {
  BV x0 = x, y = g.bits(m.get_output_size()); m.map(x0, y);
  REQUIRE(x0 == x, "input-changed", pbt::show(x)); REQUIRE(int(y.size()) == m.get_output_size() && valid(y), "output-size", pbt::show(y)); return y;
}
static BV mulv(const M& a, const BV& x) { BV y(a.size()); for (size_t i = 0; i < a.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s ^= a[i][j] & x[j]; y[i] = s; } return y; }
static M mul(const M& a, const M& b) { M c(a.size(), BV(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) c[i][j] ^= b[k][j]; return c; }
static int rank_of(M a) { int r = 0, R = a.size(), C = a[0].size(); for (int j = 0; j < C && r < R; j++) { int p = -1; for (int i = r; i < R; i++) if (a[i][j]) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[r]); for (int i = r + 1; i < R; i++) if (a[i][j]) for (int l = 0; l < C; l++) a[i][l] ^= a[r][l]; r++; } return r; }
static M ident(int n) { M a(n, BV(n, 0)); for (int i = 0; i < n; i++) a[i][i] = 1; return a; }
static BV add(BV a, const BV& b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
// affine probe: m(x) = A x + b
static void probe(Map& m, M& A, BV& b, Gen& g) {
  int in = m.get_input_size(), out = m.get_output_size(); b = apply(m, BV(in, 0), g); A.assign(out, BV(in, 0));
  for (int j = 0; j < in; j++) { BV e(in, 0); e[j] = 1; BV y = add(apply(m, e, g), b); for (int i = 0; i < out; i++) A[i][j] = y[i]; }
}
static void require_affine(Map& m, const M& A, const BV& b, Gen& g, const char *tag) {
  for (int t = 0; t < 4; t++) { BV x = g.bits(m.get_input_size()); BV y = apply(m, x, g); REQUIRE(y == add(mulv(A, x), b), tag, "x=" << pbt::show(x) << " y=" << pbt::show(y)); }
}

PBT(translation, 40000, 400000) {
  seed(g); Translation t; int k = g.irange(1, 3); BV b;
  for (int i = 0; i < k; i++) { int n = dim(g); if (g.flag()) { b = g.bits(n); t.set_bv(b); } else { t.random(n); b.assign(n, 0); b = apply(t, b, g); REQUIRE(int(b.size()) == n, "size", n); } }
  int n = b.size(); g.nontrivial(n > 1 && mixed(b)); g.note() << "b=" << pbt::show(b);
  REQUIRE(t.get_input_size() == n && t.get_output_size() == n && t.is_surjective(), "declared", n);
  for (int i = 0; i < 4; i++) { BV x = g.bits(n), y = apply(t, x, g); REQUIRE(y == add(x, b), "translation", pbt::show(x) << " -> " << pbt::show(y)); REQUIRE(apply(t, y, g) == x, "translation-involution", ""); }
  std::ostringstream os; t.display(os); std::string s = pbt::show(b).substr(0, 5) + (n > 5 ? "..." : ""); REQUIRE(os.str().find(s) != std::string::npos, "display", os.str());
}
PBT(permutation, 20000, 200000) {
  seed(g); hnco::map::Permutation p; int k = g.irange(1, 3), n = 1; for (int i = 0; i < k; i++) { n = dim(g); p.random(n); }
  REQUIRE(p.get_input_size() == n && p.get_output_size() == n && p.is_surjective(), "declared", n); g.nontrivial(n > 2); g.note() << "random n=" << n;
  std::vector<int> sigma(n, -1);
  for (int j = 0; j < n; j++) { BV e(n, 0); e[j] = 1; BV y = apply(p, e, g); REQUIRE(std::count(y.begin(), y.end(), 1) == 1, "permutation", "unit vector to " << pbt::show(y)); sigma[std::find(y.begin(), y.end(), 1) - y.begin()] = j; }
  for (int s : sigma) REQUIRE(s >= 0, "permutation", pbt::showv(sigma));
  for (int i = 0; i < 4; i++) { BV x = g.bits(n), y = apply(p, x, g); for (int l = 0; l < n; l++) REQUIRE(y[l] == x[sigma[l]], "permutation", pbt::show(x) << " -> " << pbt::show(y)); }
}
// The permutation is given by an archive with a known arrangement: y_i = x_{sigma_i}
PBT(permutation_from_file, 1500, 15000) {
  seed(g); int n = dim(g); auto sigma = gen_perm(g, n); hnco::map::Permutation p; p.random(n); std::string f = tmpfile_path("perm"); p.save(f);
  std::string s = slurp_file(f); std::vector<std::string> tok; { std::istringstream in(s); std::string w; while (in >> w) tok.push_back(w); }
  if (int(tok.size()) < n) throw pbt::Discard(); std::set<std::string> tail(tok.end() - n, tok.end()); for (int i = 0; i < n; i++) if (!tail.count(std::to_string(i))) throw pbt::Discard();
  std::string o; for (size_t i = 0; i + n < tok.size(); i++) o += tok[i] + " "; for (int v : sigma) o += std::to_string(v) + " "; spit(f, o + "\n");
  hnco::map::Permutation q; q.load(f); unlink(f.c_str()); g.nontrivial(n > 2); g.note() << "sigma=" << pbt::showv(sigma);
  for (int i = 0; i < 4; i++) { BV x = g.bits(n), y = apply(q, x, g); for (int l = 0; l < n; l++) REQUIRE(y[l] == x[sigma[l]], "permutation-sense", pbt::showv(sigma) << " " << pbt::show(x) << " -> " << pbt::show(y)); }
}
template<class T> static void check_linear(Gen& g, bool affine) {
  seed(g); T m; int k = g.irange(1, 3), r = 1, c = 1; bool surj = false;
  for (int i = 0; i < k; i++) { r = dim(g); c = dim(g); surj = g.chance(1, 3);
    if (surj && r > c) { bool thrown = false; try { m.random(r, c, true); } catch (std::runtime_error&) { thrown = true; } REQUIRE(thrown, "impossible-surjective", r << "x" << c); std::swap(r, c); }
    m.random(r, c, surj); }
  g.nontrivial(r > 1 && c > 1); g.note() << r << "x" << c << (surj ? " surjective" : "");
  REQUIRE(m.get_input_size() == c && m.get_output_size() == r, "declared-size", r << "x" << c);
  M A; BV b; probe(m, A, b, g); if (!affine) REQUIRE(b == BV(r, 0), "linear-zero", pbt::show(b));
  require_affine(m, A, b, g, "linear"); int rk = rank_of(A); bool s = m.is_surjective();
  REQUIRE(s == (rk == r), "surjective", "rank " << rk << " of " << r << "x" << c << " declared " << s); if (surj) REQUIRE(s, "surjective-requested", ""); g.label(s ? "surjective" : "not-surjective");
}
PBT(linear, 20000, 200000) { check_linear<LinearMap>(g, false); }
PBT(affine, 20000, 200000) { check_linear<AffineMap>(g, true); }
PBT(affine_display, 4000, 40000) {
  seed(g); AffineMap m; int r = g.small(1, 8), c = g.small(1, 8); m.random(r, c, false); M A; BV b; probe(m, A, b, g); std::ostringstream os, want; m.display(os);
  want << "AffineMap: " << c << " bits -> " << r << " bits\nBit matrix is:\n"; for (auto& row : A) want << pbt::show(row) << "\n"; want << "Bit vector is:\n" << pbt::show(b) << "\n"; REQUIRE(os.str() == want.str(), "display", os.str()); g.nontrivial(r > 1); g.note() << r << "x" << c;
}
static int rank01(bool v) { return v; }
static void bit_maps_bernoulli(Gen& g) { // both values of random bits occur
  Translation t; int n = 64; t.random(n); BV b = apply(t, BV(n, 0), g); int w = std::count(b.begin(), b.end(), 1); REQUIRE(w > 0 && w < n, "random-bits", w);
}
PBT(random_nontrivial, 200, 2000) { seed(g); (void)rank01; g.nontrivial(); bit_maps_bernoulli(g);
  LinearMap l; l.random(8, 8, false); M A; BV b; probe(l, A, b, g); int w = 0; for (auto& r : A) w += std::count(r.begin(), r.end(), 1); REQUIRE(w > 5 && w < 59, "random-matrix", w);
  AffineMap a; a.random(64, 2, false); probe(a, A, b, g); w = std::count(b.begin(), b.end(), 1); REQUIRE(w > 0 && w < 64, "random-affine", w);
  hnco::map::Permutation p; p.random(40); BV x(40, 0); for (int i = 0; i < 20; i++) x[i] = 1; REQUIRE(apply(p, x, g) != x, "random-permutation", "");
  TsAffineMap t; t.random(20, 40, TsAffineMap::SamplingMode::unconstrained); probe(t, A, b, g); REQUIRE(A != ident(20), "random-ts", ""); }
PBT(injection_projection, 30000, 300000) {
  int n = dim(g), k = g.irange(1, n); auto pos = gen_perm(g, n); pos.resize(k); if (g.flag()) std::sort(pos.begin(), pos.end()); g.nontrivial(k < n && k > 1); g.note() << pbt::showv(pos) << " in " << n;
  Injection inj(pos, n); Projection pr(pos, n);
  REQUIRE(inj.get_input_size() == k && inj.get_output_size() == n && inj.is_surjective() == (k == n), "injection-declared", k << " " << n);
  REQUIRE(pr.get_input_size() == n && pr.get_output_size() == k && pr.is_surjective(), "projection-declared", k << " " << n);
  BV x = g.bits(k), y = g.bits(n), y0 = y; inj.map(x, y); for (int j = 0; j < k; j++) { REQUIRE(y[pos[j]] == x[j], "injection", pbt::show(x) << " " << pbt::show(y)); y0[pos[j]] = x[j]; } REQUIRE(y == y0, "injection-other-bits", pbt::show(y));
  BV z = g.bits(k); pr.map(y, z); REQUIRE(z == x, "projection-after-injection", ""); BV u = g.bits(n); pr.map(u, z); for (int j = 0; j < k; j++) REQUIRE(z[j] == u[pos[j]], "projection", pbt::show(u));
  bool t1 = false, t2 = false; if (k > 1) { int small = g.irange(0, k - 1); try { Injection(pos, small); } catch (std::runtime_error&) { t1 = true; } try { Projection(pos, small); } catch (std::runtime_error&) { t2 = true; } REQUIRE(t1 && t2, "undersized-accepted", small); }
}
PBT(composition, 30000, 300000) {
  seed(g); int n = g.small(1, 6), k = g.irange(2, 5); std::vector<std::unique_ptr<Map>> own; std::vector<Map *> chain; Map *cur = nullptr; int sz = n; g.note() << "n=" << n << ":";
  for (int i = 0; i < k; i++) { Map *m;
    switch (g.below(7)) {
    case 0: { auto t = new Translation; t->set_bv(g.bits(sz)); m = t; g.note() << " T"; break; }
    case 1: { auto t = new hnco::map::Permutation; t->random(sz); m = t; g.note() << " P"; break; }
    case 2: { auto t = new LinearMap; int r = g.small(1, 7); t->random(r, sz, false); m = t; g.note() << " L" << r; break; }
    case 3: { auto t = new AffineMap; int r = g.small(1, 7); t->random(r, sz, r <= sz && g.flag()); m = t; g.note() << " A" << r; break; }
    case 4: if (sz > 1) { auto t = new TsAffineMap; t->random(sz, g.small(0, 8), g.below(6)); m = t; g.note() << " S"; break; } // fallthrough
    case 5: { int r = sz + g.small(0, 2); auto pos = gen_perm(g, r); pos.resize(sz); m = new Injection(pos, r); g.note() << " I" << r; break; }
    default: { int r = g.irange(1, sz); auto pos = gen_perm(g, sz); pos.resize(r); m = new Projection(pos, sz); g.note() << " J" << r; }
    }
    own.emplace_back(m); chain.push_back(m); sz = m->get_output_size(); if (cur) { cur = new MapComposition(m, cur); own.emplace_back(cur); } else cur = m; }
  g.nontrivial(n > 1 && sz > 1); REQUIRE(cur->get_input_size() == n && cur->get_output_size() == sz, "composition-size", "");
  bool all = true; for (auto m : chain) all = all && m->is_surjective(); REQUIRE(cur->is_surjective() == all, "composition-surjective", "");
  // an injection leaves the other bits of its output as they are, so buffers start at zero and stay so
  std::set<BV> img; std::vector<BV> buf; for (auto m : chain) buf.push_back(BV(m->get_output_size(), 0));
  BV out(sz, 0);
  for (uint64_t v = 0; v < (1u << n); v++) { BV x = from_int(v, n), y = x; for (size_t i = 0; i < chain.size(); i++) { BV z(chain[i]->get_output_size(), 0); chain[i]->map(y, z); y = z; } cur->map(x, out); REQUIRE(out == y, "composition", pbt::show(x) << " -> " << pbt::show(out) << " want " << pbt::show(y)); img.insert(out); }
  if (cur->is_surjective()) REQUIRE(img.size() == (size_t(1) << sz), "composition-not-surjective", img.size()); g.label(all ? "surjective" : "not-surjective");
}
static M tmat(const Transvection& t, int n) { M a = ident(n); a[t.row_index][t.column_index] ^= 1; return a; }
static Transvection gen_tv(Gen& g, int n) { Transvection t; t.row_index = g.below(n); t.column_index = g.below(n - 1); if (t.column_index >= t.row_index) t.column_index++; return t; }
static std::string st(const transvection_sequence_t& ts) { std::ostringstream o; for (auto& t : ts) o << "(" << t.row_index << "," << t.column_index << ")"; return o.str(); }
PBT(transvection, 60000, 600000) {
  int n = g.chance(1, 100) ? g.irange(30, 100) : g.small(2, 8); Transvection a = gen_tv(g, n), b = gen_tv(g, n); g.nontrivial(n > 2); g.note() << "n=" << n << st({a, b}); M A = tmat(a, n), B = tmat(b, n);
  REQUIRE(transvections_commute(a, b) == (mul(A, B) == mul(B, A)), "commute", st({a, b}));
  std::set<int> s{a.row_index, a.column_index, b.row_index, b.column_index}; REQUIRE(transvections_are_disjoint(a, b) == (s.size() == 4), "disjoint", st({a, b}));
  BV x = g.bits(n), y = x; a.multiply(y); REQUIRE(y == mulv(A, x), "multiply-vector", pbt::show(x)); a.multiply(y); REQUIRE(y == x, "involution", "");
  int c = g.small(1, 6); M m(n); for (auto& r : m) r = g.bits(c); M m0 = m; a.multiply(m); REQUIRE(m == mul(A, m0), "multiply-matrix", "");
  Transvection w; w.row_index = g.irange(-2, n + 1); w.column_index = g.irange(-2, n + 1); bool v = w.row_index >= 0 && w.column_index >= 0 && w.row_index != w.column_index; REQUIRE(w.is_valid() == v, "valid", st({w})); REQUIRE(w.is_valid(n) == (v && w.row_index < n && w.column_index < n), "valid-n", st({w}));
  REQUIRE(ts_is_valid({a, w}) == v, "ts-valid", ""); REQUIRE(ts_is_valid({w, a, b}, n) == w.is_valid(n), "ts-valid-n", "");
  std::ostringstream os; a.display(os); REQUIRE(os.str() == "(" + std::to_string(a.row_index) + ", " + std::to_string(a.column_index) + ")", "display", os.str());
}
PBT(sequences, 40000, 400000) {
  int n = g.small(2, 10), t = g.small(0, 12); if (g.chance(1, 100)) { n = g.irange(11, 80); t = g.irange(0, 60); } transvection_sequence_t ts; M P = ident(n); for (int i = 0; i < t; i++) { ts.push_back(gen_tv(g, n)); P = mul(tmat(ts.back(), n), P); } auto ts0 = ts; g.nontrivial(t > 1); g.note() << "n=" << n << " " << st(ts);
  BV x = g.bits(n), y = x; ts_multiply(y, ts); REQUIRE(y == mulv(P, x), "ts-vector", st(ts) << pbt::show(x) << " -> " << pbt::show(y));
  int c = g.small(1, 6); M m(n); for (auto& r : m) r = g.bits(c); M m0 = m; ts_multiply(m, ts); REQUIRE(m == mul(P, m0), "ts-matrix", st(ts)); M id = ident(n); ts_multiply(id, ts); REQUIRE(id == P, "ts-matrix-form", st(ts));
  ts_invert(ts); REQUIRE(ts_is_valid(ts, n), "ts-invert-valid", ""); ts_multiply(y, ts); REQUIRE(y == x, "ts-invert", st(ts0)); ts_multiply(id, ts); REQUIRE(id == ident(n), "ts-invert-matrix", st(ts0));
}
static void check_mode(const transvection_sequence_t& ts, int n, int t, int mode, const char *who) {
  std::ostringstream ctx; ctx << who << " mode " << mode << " n=" << n << " t=" << t << " got " << st(ts); int k = n / 2, want = t;
  if (mode == 1) want = std::min(t, n % 2 ? k * (k + 1) : k * k); if (mode == 2 || mode == 3) want = std::min(t, n - 1); if (mode == 4) want = std::min(t, k);
  REQUIRE(int(ts.size()) == want, "sampling-length", ctx.str()); for (auto& a : ts) REQUIRE(a.row_index >= 0 && a.row_index < n && a.column_index >= 0 && a.column_index < n && a.row_index != a.column_index, "sampling-valid", ctx.str());
  for (size_t i = 0; i < ts.size(); i++) for (size_t j = i + 1; j < ts.size(); j++) { auto &a = ts[i], &b = ts[j]; bool com = a.row_index != b.column_index && b.row_index != a.column_index;
      if (mode == 1) { REQUIRE(com, "sampling-commuting", ctx.str()); REQUIRE(a.row_index != b.row_index || a.column_index != b.column_index, "sampling-distinct", ctx.str()); }
      if (mode == 2) { REQUIRE(a.row_index != b.row_index, "sampling-unique-source", ctx.str()); REQUIRE(com, "sampling-unique-source-commuting", ctx.str()); }
      if (mode == 3) { REQUIRE(a.column_index != b.column_index, "sampling-unique-destination", ctx.str()); REQUIRE(com, "sampling-unique-destination-commuting", ctx.str()); }
      if (mode == 4) { std::set<int> s{a.row_index, a.column_index, b.row_index, b.column_index}; REQUIRE(s.size() == 4, "sampling-disjoint", ctx.str()); }
      if (mode == 5 && j == i + 1) REQUIRE(!com, "sampling-non-commuting", ctx.str()); }
}
PBT(sampling_modes, 20000, 200000) { // the output sequence may hold an earlier sample
  seed(g); transvection_sequence_t ts; int k = g.irange(1, 4); g.nontrivial(); g.note() << "samples:";
  for (int i = 0; i < k; i++) { int n = g.chance(1, 8) ? g.irange(13, 30) : g.small(2, 12), t = g.small(0, 14), mode = g.below(6); if (g.chance(1, 60)) n = g.irange(30, 120); if (g.chance(1, 10)) t = g.irange(14, 100); if (g.chance(1, 60)) t = g.irange(100, 400); g.note() << " (" << mode << "," << n << "," << t << ")";
    switch (mode) { case 0: ts_random(ts, n, t); break; case 1: ts_random_commuting(ts, n, t); break; case 2: ts_random_unique_source(ts, n, t); break; case 3: ts_random_unique_destination(ts, n, t); break; case 4: ts_random_disjoint(ts, n, t); break; default: ts_random_non_commuting(ts, n, t); }
    check_mode(ts, n, t, mode, "ts_random"); }
}
static transvection_sequence_t parse_ts(const std::string& s) { transvection_sequence_t ts; size_t p = 0; while ((p = s.find('(', p)) != std::string::npos) { Transvection t; t.row_index = std::stoi(s.substr(p + 1)); size_t q = s.find(',', p); t.column_index = std::stoi(s.substr(q + 1)); ts.push_back(t); p = q; } return ts; }
PBT(ts_affine_map, 20000, 200000) {
  seed(g); TsAffineMap m; int k = g.irange(1, 3), n = 2, t = 0, mode = 0; for (int i = 0; i < k; i++) { n = g.small(2, 12); t = g.small(0, 14); if (g.chance(1, 80)) { n = g.irange(13, 90); t = g.irange(14, 150); } mode = g.below(6); m.random(n, t, mode); if (g.chance(1, 4)) m.invert(); else { std::ostringstream os; m.display(os); check_mode(parse_ts(os.str()), n, t, mode, "TsAffineMap"); } }
  g.nontrivial(t > 0); g.note() << "n=" << n << " t=" << t << " mode=" << mode;
  REQUIRE(m.get_input_size() == n && m.get_output_size() == n && m.is_surjective(), "declared", n); M A; BV b; probe(m, A, b, g); require_affine(m, A, b, g, "ts-affine"); REQUIRE(rank_of(A) == n, "ts-affine-invertible", "");
  std::ostringstream os; m.display(os); M P = ident(n); for (auto& a : parse_ts(os.str())) P = mul(tmat(a, n), P); REQUIRE(P == A, "ts-affine-product", os.str());
  TsAffineMap inv = m; inv.invert(); for (int i = 0; i < 4; i++) { BV x = g.bits(n); BV y = apply(m, x, g); REQUIRE(apply(inv, y, g) == x, "ts-affine-inverse", pbt::show(x)); REQUIRE(apply(m, apply(inv, x, g), g) == x, "ts-affine-inverse", pbt::show(x)); }
  inv.invert(); BV x = g.bits(n); REQUIRE(apply(inv, x, g) == apply(m, x, g), "ts-affine-double-inverse", "");
  bool thrown = false; try { TsAffineMap z; z.random(n, t, g.flag() ? 6 + int(g.below(5)) : -1); } catch (std::runtime_error&) { thrown = true; } REQUIRE(thrown, "unknown-mode-accepted", "");
}
PBT(sampling_support, 40, 400) { // every transvection (and every non-commuting partner) can be sampled
  seed(g); int n = g.irange(2, 4); std::set<std::pair<int, int>> seen, part; Transvection a = gen_tv(g, n), t; g.nontrivial(); g.note() << "n=" << n;
  for (int i = 0; i < 3000; i++) { t.random(n); seen.insert({t.row_index, t.column_index}); t.random_non_commuting(n, a); part.insert({t.row_index, t.column_index}); REQUIRE(t.row_index == a.column_index || t.column_index == a.row_index, "non-commuting", ""); }
  REQUIRE(int(seen.size()) == n * (n - 1), "support", seen.size()); REQUIRE(int(part.size()) == 2 * (n - 1) - 1, "support-non-commuting", part.size() << " n=" << n);
  for (int mode = 1; mode < 5; mode++) { std::set<std::pair<int, int>> s; for (int i = 0; i < 3000; i++) { transvection_sequence_t ts; if (mode == 1) ts_random_commuting(ts, n, 1); else if (mode == 2) ts_random_unique_source(ts, n, 1); else if (mode == 3) ts_random_unique_destination(ts, n, 1); else ts_random_disjoint(ts, n, 1); s.insert({ts[0].row_index, ts[0].column_index}); } REQUIRE(int(s.size()) == n * (n - 1), "support-mode", mode << " " << s.size()); }
}
