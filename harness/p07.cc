// P07: linear algebra over GF(2).  Oracle: textbook definitions computed on bitset rows.
#include "pbt.hh"
#include "hnco/bit-matrix.hh"
using namespace hnco;
using pbt::Gen;
typedef bit_matrix_t M;

static M gen_matrix(Gen& g, int r, int c) {
  M a(r, bit_vector_t(c, 0));
  int mode = int(g.below(7));
  if (mode == 6) { // product of thin factors: low rank
    int k = g.irange(0, std::min(r, c));
    M u(r, bit_vector_t(k)), v(k, bit_vector_t(c));
    for (auto& row : u) row = g.rawbits(k);
    for (auto& row : v) row = g.rawbits(c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int s = 0; for (int l = 0; l < k; l++) s ^= u[i][l] & v[l][j]; a[i][j] = s; }
    g.label("low-rank");
    return a;
  }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    switch (mode) {
    case 0: a[i][j] = i == j; break;
    case 1: a[i][j] = g.below(8) == 7; break;
    case 2: a[i][j] = i <= j ? (i == j ? 1 : g.below(2)) : 0; break;
    case 3: a[i][j] = i >= j ? (i == j ? 1 : g.below(2)) : 0; break;
    default: a[i][j] = g.below(2);
    }
  }
  if (mode == 0 || g.flag()) { // scramble rows
    int k = g.irange(0, 2 * r);
    for (int t = 0; t < k; t++) { int i = g.below(r), j = g.below(r); if (g.flag()) std::swap(a[i], a[j]); else if (i != j) for (int l = 0; l < c; l++) a[i][l] ^= a[j][l]; }
  }
  if (g.chance(1, 6) && c > 1) { int j = g.below(c); for (int i = 0; i < r; i++) a[i][j] = 0; }
  if (g.chance(1, 6) && r > 1) { int i = g.below(r), j = g.below(r); a[i] = a[j]; if (g.flag()) a[i] = bit_vector_t(c, 0); }
  return a;
}
static M mul(const M& a, const M& b) {
  M c(a.size(), bit_vector_t(b[0].size(), 0));
  for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) c[i][j] ^= b[k][j];
  return c;
}
static bit_vector_t mulv(const M& a, const bit_vector_t& x) {
  bit_vector_t y(a.size());
  for (size_t i = 0; i < a.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s ^= a[i][j] & x[j]; y[i] = s; }
  return y;
}
// reduced row echelon form: canonical for the row space
static M rref(M a, int& rank) {
  int r = 0, R = a.size(), C = a[0].size();
  for (int j = 0; j < C && r < R; j++) {
    int p = -1; for (int i = r; i < R; i++) if (a[i][j]) { p = i; break; }
    if (p < 0) continue;
    std::swap(a[p], a[r]);
    for (int i = 0; i < R; i++) if (i != r && a[i][j]) for (int l = 0; l < C; l++) a[i][l] ^= a[r][l];
    r++;
  }
  rank = r; return a;
}
static std::string sm(const M& a) { std::string s; for (auto& r : a) s += pbt::show(r) + " "; return s; }
static int dim(Gen& g) { if (g.chance(1, 150)) return g.irange(100, 270); return g.chance(1, 12) ? g.irange(30, 70) : g.small(1, 14); }
static bool is_id(const M& a) { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) if (a[i][j] != (i == j)) return false; return true; }
static bool nz(const M& a) { for (auto& r : a) for (auto b : r) if (b) return true; return false; }

PBT(products, 40000, 400000) {
  int r = dim(g), c = dim(g); M a = gen_matrix(g, r, c); const M a0 = a;
  bit_vector_t x = g.bits(c), y(r, 7);
  g.nontrivial(r > 1 && c > 1 && nz(a)); g.note() << sm(a) << "x=" << pbt::show(x);
  bm_multiply(y, a, x);
  REQUIRE(y == mulv(a, x), "multiply", "A=" << sm(a) << " x=" << pbt::show(x) << " got " << pbt::show(y));
  REQUIRE(a == a0, "multiply-const", "argument changed");
  M t = bm_transpose(a); M t2(c, bit_vector_t(r, 1)); bm_transpose(t2, a);
  REQUIRE(int(t.size()) == c && t == t2, "transpose", "two transposes differ");
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) REQUIRE(t[j][i] == a[i][j], "transpose", sm(a));
  REQUIRE(bm_num_rows(a) == r && bm_num_columns(a) == c, "shape", r << "x" << c);
  REQUIRE(bm_is_square(a) == (r == c), "shape", r << "x" << c);
  REQUIRE(bm_is_identity(a) == (r == c && is_id(a)), "is-identity", sm(a));
  bool ut = true; for (int i = 0; i < r; i++) for (int j = 0; j < std::min(i, c); j++) if (a[i][j]) ut = false;
  REQUIRE(bm_is_upper_triangular(a) == ut, "is-upper-triangular", sm(a));
  REQUIRE(bm_is_valid(a), "is-valid", sm(a));
  M bad = a; int bi = g.below(r), bj = g.below(c);
  switch (g.below(3)) { case 0: bad[bi][bj] = g.irange(2, 255); break; case 1: if (r > 1) bad[bi].push_back(0); else bad[bi][bj] = 2; break; default: if (r > 1) bad[bi].pop_back(); else bad[bi][bj] = 3; }
  REQUIRE(!bm_is_valid(bad), "is-valid", "accepted " << sm(bad));
  std::ostringstream os; bm_display(a, os); std::string want; for (auto& row : a) want += pbt::show(row) + "\n";
  REQUIRE(os.str() == want, "display", os.str());
}
PBT(constructors, 4000, 40000) {
  int r = dim(g), c = dim(g); g.nontrivial(r > 1 && c > 1); g.note() << r << "x" << c;
  M z = bm_rectangular(r, c); REQUIRE(z == M(r, bit_vector_t(c, 0)), "rectangular", sm(z));
  REQUIRE(bm_square(r) == M(r, bit_vector_t(r, 0)), "square", r);
  M id = bm_identity(r); REQUIRE(int(id.size()) == r && int(id[0].size()) == r && is_id(id), "identity", sm(id));
  M m = gen_matrix(g, r, r); bm_identity(m); REQUIRE(m == id, "identity", sm(m));
  M a = gen_matrix(g, r, c); const M a0 = a; int r2 = dim(g), c2 = g.flag() ? dim(g) : c;
  if (g.flag()) bm_resize(a, r2, c2); else { c2 = r2; bm_resize(a, r2); }
  REQUIRE(int(a.size()) == r2, "resize", ""); for (auto& row : a) REQUIRE(int(row.size()) == c2, "resize", "");
  for (int i = 0; i < r2; i++) for (int j = 0; j < c2; j++) REQUIRE(a[i][j] == (i < r && j < c ? a0[i][j] : 0), "resize", i << "," << j);
  REQUIRE(bm_is_valid(a), "resize-valid", sm(a));
  bm_clear(a); REQUIRE(!nz(a) && int(a.size()) == r2, "clear", "");
  random::Generator::set_seed(g.seed32()); bm_random(a); REQUIRE(bm_is_valid(a) && int(a.size()) == r2 && int(a[0].size()) == c2, "random", sm(a));
}
PBT(elementary, 40000, 400000) {
  int r = dim(g), c = dim(g); M a = gen_matrix(g, r, c), m = a; g.note() << sm(a);
  int n = g.small(1, 10); g.nontrivial(r > 1 && c > 1 && nz(a));
  for (int t = 0; t < n; t++) {
    int op = g.below(4);
    if (op == 0) { int i = g.below(r), j = g.below(r); bm_swap_rows(a, i, j); std::swap(m[i], m[j]); }
    else if (op == 1 && r > 1) { int i = g.below(r), j = g.below(r - 1); if (j >= i) j++; bm_add_rows(a, i, j); for (int l = 0; l < c; l++) m[i][l] ^= m[j][l]; }
    else if (op == 2 && c > 1) { int i = g.below(c), j = g.below(c - 1); if (j >= i) j++; bm_add_columns(a, i, j); for (int l = 0; l < r; l++) m[l][i] ^= m[l][j]; }
    else { int j = g.below(c); bit_vector_t v = g.bits(r); bm_set_column(a, j, v); for (int l = 0; l < r; l++) m[l][j] = v[l]; }
    REQUIRE(a == m, "row-column-op", "op " << op << " got " << sm(a) << " want " << sm(m));
  }
}
PBT(echelon_rank, 60000, 600000) {
  int r = dim(g), c = dim(g); M a = gen_matrix(g, r, c); const M a0 = a; g.note() << sm(a); g.nontrivial(r > 1 && c > 1 && nz(a));
  bm_row_echelon_form(a); int rk, rk2; M x = rref(a0, rk), y = rref(a, rk2);
  REQUIRE(bm_is_valid(a) && int(a.size()) == r, "echelon", sm(a));
  int last = -1; bool zero = false;
  for (int i = 0; i < r; i++) {
    int lead = -1; for (int j = 0; j < c; j++) if (a[i][j]) { lead = j; break; }
    if (lead < 0) { zero = true; continue; }
    REQUIRE(!zero && lead > last, "echelon-shape", "A=" << sm(a0) << " gives " << sm(a)); last = lead;
  }
  REQUIRE(x == y, "echelon-rowspace", "A=" << sm(a0) << " gives " << sm(a));
  REQUIRE(bm_rank(a) == rk, "rank", "A=" << sm(a0) << " rank " << bm_rank(a) << " want " << rk);
  M t = bm_transpose(a0); bm_row_echelon_form(t); REQUIRE(bm_rank(t) == rk, "row-column-rank", sm(a0));
  g.label(rk == std::min(r, c) ? "full-rank" : "deficient");
}
PBT(solve, 60000, 600000) {
  int n = dim(g); M a = gen_matrix(g, n, n); const M a0 = a; bit_vector_t b = g.bits(n); if (g.flag()) b = mulv(a0, g.bits(n)); const bit_vector_t b0 = b;
  int rk; rref(a0, rk); g.note() << sm(a) << " b=" << pbt::show(b); g.nontrivial(n > 1 && nz(a)); g.label(rk == n ? "invertible" : "singular");
  bool ok = bm_solve(a, b);
  REQUIRE(ok == (rk == n), "solve-status", "A=" << sm(a0) << " rank " << rk << " returned " << ok);
  if (ok) { REQUIRE(bm_is_identity(a), "solve-identity", sm(a)); REQUIRE(mulv(a0, b) == b0, "solve", "A=" << sm(a0) << " b=" << pbt::show(b0) << " x=" << pbt::show(b)); }
}
PBT(solve_upper_triangular, 40000, 400000) {
  int n = dim(g); M a(n, bit_vector_t(n, 0)); bool sing = g.chance(1, 3);
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a[i][j] = i == j ? (sing ? g.below(2) : 1) : g.below(2);
  const M a0 = a; bit_vector_t b = g.bits(n); const bit_vector_t b0 = b; bool inv = true; for (int i = 0; i < n; i++) inv = inv && a[i][i];
  g.note() << sm(a) << " b=" << pbt::show(b); g.nontrivial(n > 1); g.label(inv ? "invertible" : "singular");
  bool ok = bm_solve_upper_triangular(a, b);
  REQUIRE(ok == inv, "solve-ut-status", "A=" << sm(a0) << " returned " << ok);
  if (ok) { REQUIRE(bm_is_identity(a), "solve-ut-identity", sm(a)); REQUIRE(mulv(a0, b) == b0, "solve-ut", "A=" << sm(a0) << " b=" << pbt::show(b0) << " x=" << pbt::show(b)); }
}
PBT(invert, 60000, 600000) {
  int n = dim(g); M a = gen_matrix(g, n, n), N = gen_matrix(g, n, n); const M a0 = a; int rk; rref(a0, rk);
  g.note() << sm(a); g.nontrivial(n > 1 && nz(a)); g.label(rk == n ? "invertible" : "singular");
  bool ok = bm_invert(a, N);
  REQUIRE(ok == (rk == n), "invert-status", "A=" << sm(a0) << " rank " << rk << " returned " << ok);
  if (ok) { REQUIRE(bm_is_identity(a), "invert-identity", sm(a)); REQUIRE(is_id(mul(a0, N)) && is_id(mul(N, a0)), "invert", "A=" << sm(a0) << " N=" << sm(N)); }
}
