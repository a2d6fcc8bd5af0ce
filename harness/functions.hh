// Catalogue of objective functions with independent reference evaluators.
#ifndef VERIF_FUNCTIONS_HH
#define VERIF_FUNCTIONS_HH
#include "common.hh"
#include "hnco/functions/function.hh"
#include "hnco/functions/collection/theory.hh"
#include "hnco/functions/collection/jump.hh"
#include "hnco/functions/collection/trap.hh"
#include "hnco/functions/collection/four-peaks.hh"
#include "hnco/functions/collection/long-path.hh"
#include "hnco/functions/collection/labs.hh"
#include "hnco/functions/collection/cancellation.hh"
#include "hnco/functions/collection/linear-function.hh"
#include "hnco/functions/collection/max-sat.hh"
#include "hnco/functions/collection/nk-landscape.hh"
#include "hnco/functions/collection/qubo.hh"
#include "hnco/functions/collection/partition.hh"
#include "hnco/functions/collection/equal-products.hh"
#include "hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh"
#include "hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh"
#include "hnco/functions/collection/walsh/walsh-expansion.hh"
#include "hnco/functions/collection/walsh/walsh-expansion-1.hh"
#include "hnco/functions/collection/walsh/walsh-expansion-2.hh"
#include "hnco/functions/collection/factorization.hh"

namespace cat {
using namespace hnco::function;
typedef std::shared_ptr<Function> FP;
struct Fn {
  FP f; std::function<double(const BV&)> ref; std::string name; int n;
  double scale = 0;      // magnitude of the terms that are added up
  bool exact = true;     // values are exactly representable
  bool incr = false;     // documented to provide incremental evaluation
  bool max = false;      // documented to know its maximum
  BV hint;               // interesting point, may be empty
  std::function<BV(const BV&)> act = [](const BV& x) { return x; }; // coordinate change applied by wrappers
  double tol() const { return exact ? 0 : 1e-10; }
  bool same(double a, double b) const { return exact ? a == b : pbt::close(a, b, scale, 1e-10); }
};
typedef std::vector<double> W;
inline int wt(const BV& x) { int w = 0; for (auto b : x) w += b; return w; }
inline double S(const BV& x, int i) { return x[i] ? -1 : 1; }
inline W gen_w(Gen& g, int n) { W w(n); int m = g.below(5); for (auto& v : w) v = m == 0 ? double(g.range(-4, 4)) : m == 1 ? g.real(-1, 1) : g.weight(); return w; }
inline double sumabs(const W& w) { double s = 0; for (double v : w) s += std::fabs(v); return s; }
struct Feed { std::shared_ptr<std::pair<W, size_t>> p; Feed(const W& w): p(new std::pair<W, size_t>(w, 0)) {} double operator()() { if (p->second >= p->first.size()) { p->second++; return 0; } return p->first[p->second++]; } };
typedef std::vector<std::vector<int>> Cnf;
inline Cnf gen_cnf(Gen& g, int n, int c, bool three) { Cnf e(c); for (auto& cl : e) { int k = three ? 3 : g.irange(1, 5); if (!three && g.chance(1, 20)) k = 0; for (int i = 0; i < k; i++) { int v = g.irange(1, n); cl.push_back(g.flag() ? v : -v); } } return e; }
inline std::string cnf_text(const Cnf& e, int n) { std::ostringstream o; o << "p cnf " << n << " " << e.size() << "\n"; for (auto& c : e) { for (int l : c) o << l << " "; o << "0\n"; } return o.str(); }
inline int true_lits(const std::vector<int>& c, const BV& x) { int t = 0; for (int l : c) t += (x[std::abs(l) - 1] != 0) == (l > 0); return t; }
inline double sat_value(const Cnf& e, const BV& x) { int s = 0; for (auto& c : e) s += true_lits(c, x) > 0; return s; }
inline double nae_value(const Cnf& e, const BV& x) { int s = 0; for (auto& c : e) { int t = true_lits(c, x); s += t > 0 && t < int(c.size()); } return s; }
// k-long path of dimension n as an explicit list
inline std::vector<BV> long_path(int n, int k) {
  if (n == 0) return {BV()};
  auto q = long_path(n - k, k); std::vector<BV> p;
  for (auto& v : q) { BV x(k, 0); x.insert(x.end(), v.begin(), v.end()); p.push_back(x); }
  for (int i = 1; i < k; i++) { BV x(k, 0); for (int j = k - i; j < k; j++) x[j] = 1; x.insert(x.end(), q.back().begin(), q.back().end()); p.push_back(x); }
  for (int i = int(q.size()) - 1; i >= 0; i--) { BV x(k, 1); x.insert(x.end(), q[i].begin(), q[i].end()); p.push_back(x); }
  return p;
}
inline double cancel(const BV& x, bool sinus) {
  int m = x.size() / 9; long double acc = 0; double prev = 0; W b(m);
  for (int i = 0; i < m; i++) { int r = 0; for (int j = 0; j < 8; j++) { int bit = x[9 * i + 1 + j]; if (x[9 * i]) bit = !bit; r += bit << j; } b[i] = x[9 * i] ? -(r + 1) / 100.0 : r / 100.0; }
  for (int i = 0; i < m; i++) { double y = i == 0 ? b[0] : b[i] + (sinus ? std::sin(prev) : prev); acc += std::fabs(y); prev = y; }
  return -double(acc);
}
inline double factor_value(unsigned __int128 N, int s1, int s2, const BV& x) {
  unsigned __int128 a = 0, b = 0; for (int i = 0; i < s1; i++) a = a * 2 + x[i]; for (int i = 0; i < s2; i++) b = b * 2 + x[s1 + i];
  unsigned __int128 d = (a * b) ^ N; double r = 0; for (int i = 0; i < 128; i++) if ((d >> i) & 1) r += i + 1; return -r;
}
// Point number i (from 0) of the long k-path with m blocks, and the number of its points
inline unsigned __int128 long_path_length(int k, int m) { return ((unsigned __int128)k << m) - (k - 1); }
inline BV long_path_point(int k, int m, unsigned __int128 i) {
  if (m == 0) return BV(); unsigned __int128 L = long_path_length(k, m - 1); BV h(k, 0), t;
  if (i < L) t = long_path_point(k, m - 1, i); else if (i < L + (k - 1)) { int j = int(i - L); std::fill(h.end() - (j + 1), h.end(), 1); t = long_path_point(k, m - 1, L - 1); } else { std::fill(h.begin(), h.end(), 1); t = long_path_point(k, m - 1, 2 * L + (k - 1) - 1 - i); }
  h.insert(h.end(), t.begin(), t.end()); return h;
}
inline int bitlen(uint64_t v) { int b = 0; while (v) { b++; v >>= 1; } return b; }
inline std::vector<std::vector<int>> nk_neighbors(const Function& f) {
  std::ostringstream o; f.display(o); std::istringstream in(o.str()); std::string line; std::vector<std::vector<int>> nb; bool on = false;
  while (std::getline(in, line)) { if (line.find("Neighbors") == 0) { on = true; continue; } if (!on || line.empty()) continue; std::istringstream l(line); int i, v; std::string arrow; if (!(l >> i >> arrow)) continue; std::vector<int> r; while (l >> v) r.push_back(v); if (int(nb.size()) <= i) nb.resize(i + 1); nb[i] = r; }
  return nb;
}
enum { K_ONEMAX, K_LO, K_NEEDLE, K_HIFF, K_RIDGE, K_PLATEAU, K_TRAP, K_JUMP, K_DJUMP, K_FOUR, K_SIX, K_LONG, K_LABS, K_LABSMF, K_CANC, K_SINCANC, K_LIN, K_SAT, K_NAE, K_NK, K_QUBO, K_PART, K_EQP, K_ISING1, K_ISING2, K_WALSH, K_WALSH1, K_WALSH2, K_WLR, K_WLRP, K_FACT, K_COUNT };
// Kinds available for bit vectors of size n (0: the function chooses its size)
inline bool feasible(int k, int n) {
  switch (k) {
  case K_HIFF: return n > 0 && (n & (n - 1)) == 0;
  case K_FOUR: case K_SIX: return n >= 2;
  case K_LONG: return n >= 2 && n <= 24;
  case K_CANC: case K_SINCANC: return n % 9 == 0;
  case K_NAE: return n >= 1;
  case K_NK: return n >= 2;
  case K_LABSMF: return n >= 2;
  case K_FACT: { if (n > 60) return false; for (int b = 2; b <= 62; b++) if ((b + 1) / 2 + b - 1 == n) return true; return false; }
  default: return n >= 1;
  }
}
inline bool k_incr(int k) { return k == K_ONEMAX || k == K_LIN || k == K_ISING1 || k == K_ISING2 || k == K_WALSH1; }
inline bool k_max(int k) { return k <= K_LONG || k == K_CANC || k == K_SINCANC || k == K_LIN || k == K_WALSH1; }
inline Fn make_kind(Gen& g, int k, int n) {
  Fn r; r.n = n; r.incr = k_incr(k); r.max = k_max(k); std::ostringstream d; d.precision(17);
  switch (k) {
  case K_ONEMAX: r.f.reset(new OneMax(n)); r.ref = [](const BV& x) { return wt(x); }; d << "OneMax"; break;
  case K_LO: r.f.reset(new LeadingOnes(n)); r.ref = [](const BV& x) { int i = 0; while (i < int(x.size()) && x[i]) i++; return i; }; d << "LeadingOnes"; break;
  case K_NEEDLE: r.f.reset(new Needle(n)); r.ref = [](const BV& x) { return wt(x) == int(x.size()) ? 1 : 0; }; d << "Needle"; break;
  case K_HIFF: r.f.reset(new Hiff(n)); r.ref = [](const BV& x) { std::function<double(int, int)> h = [&](int a, int l) -> double { double v = 0; bool eq = true; for (int i = a + 1; i < a + l; i++) eq = eq && x[i] == x[a]; if (eq) v = l; if (l > 1) v += h(a, l / 2) + h(a + l / 2, l / 2); return v; }; return h(0, x.size()); }; d << "Hiff"; break;
  case K_RIDGE: r.f.reset(new Ridge(n)); r.ref = [n](const BV& x) { for (int i = 0; i <= n; i++) { BV p(n, 0); std::fill(p.begin(), p.begin() + i, 1); if (p == x) return n + i; } return n - wt(x); }; d << "Ridge"; break;
  case K_PLATEAU: r.f.reset(new Plateau(n)); r.ref = [n](const BV& x) { if (wt(x) == n) return n + 2; for (int i = 0; i < n; i++) { BV p(n, 0); std::fill(p.begin(), p.begin() + i, 1); if (p == x) return n + 1; } return n - wt(x); }; d << "Plateau"; break;
  case K_TRAP: { std::vector<int> ds; for (int t = 1; t <= n; t++) if (n % t == 0) ds.push_back(t); int t = g.pick(ds), sz = n / t; r.f.reset(new Trap(n, t)); d << "Trap(" << t << ")";
    r.ref = [t, sz](const BV& x) { double v = 0; for (int b = 0; b < t; b++) { int w = 0; for (int i = 0; i < sz; i++) w += x[b * sz + i]; v += w == sz ? sz : sz - 1 - w; } return v; }; break; }
  case K_JUMP: { int gap = g.irange(1, n); r.f.reset(new Jump(n, gap)); d << "Jump(" << gap << ")"; r.ref = [n, gap](const BV& x) { int w = wt(x); return w == n || w <= n - gap ? w : 0; }; r.hint = BV(n, 1); break; }
  case K_DJUMP: { int gap = g.irange(1, n); r.f.reset(new DeceptiveJump(n, gap)); d << "DeceptiveJump(" << gap << ")"; r.ref = [n, gap](const BV& x) { int w = wt(x); return w == n || w <= n - gap ? gap + w : n - w; }; r.hint = BV(n, 1); break; }
  case K_FOUR: case K_SIX: { int t = g.irange(0, n / 2 - 1); bool six = k == K_SIX; if (six) r.f.reset(new SixPeaks(n, t)); else r.f.reset(new FourPeaks(n, t)); d << (six ? "SixPeaks(" : "FourPeaks(") << t << ")";
    r.ref = [n, t, six](const BV& x) { int h[2] = {0, 0}, l[2] = {0, 0}; while (h[x[0]] < n && x[h[x[0]]] == x[0]) h[x[0]]++; while (l[x[n - 1]] < n && x[n - 1 - l[x[n - 1]]] == x[n - 1]) l[x[n - 1]]++;
      int m = std::max(h[1], l[0]); bool rew = h[1] > t && l[0] > t; if (six) { m = std::max(m, std::max(h[0], l[1])); rew = rew || (h[0] > t && l[1] > t); } return rew ? m + n : m; };
    { int h = g.irange(0, 1) ? t + 1 : n - t - 1; r.hint = BV(n, 0); std::fill(r.hint.begin(), r.hint.begin() + h, 1); if (six && g.flag()) for (auto& b : r.hint) b ^= 1; } break; }
  case K_LONG: { std::vector<int> ds; for (int t = 2; t <= n; t++) if (n % t == 0) ds.push_back(t); int kk = g.pick(ds); r.f.reset(new LongPath(n, kk)); d << "LongPath(" << kk << ")"; auto idx = std::make_shared<std::map<BV, int>>(); auto p = long_path(n, kk); for (size_t i = 0; i < p.size(); i++) (*idx)[p[i]] = i; r.hint = p[g.chance(1, 3) ? p.size() - 1 : g.below(p.size())];
    r.ref = [n, kk, idx](const BV& x) { auto it = idx->find(x); if (it != idx->end()) return double(it->second + 1); double v = 0; for (int i = 0; i < n; i++) v -= x[i] * (i < kk ? n : 1); return v; }; break; }
  case K_LABS: case K_LABSMF: { auto f = new Labs(n); bool mf = k == K_LABSMF; f->set_merit_factor_flag(mf); r.f.reset(f); d << (mf ? "Labs(merit)" : "Labs"); r.exact = !mf; r.scale = n * n;
    r.ref = [n, mf](const BV& x) { long e = 0; for (int l = 1; l < n; l++) { long c = 0; for (int i = 0; i + l < n; i++) c += x[i] == x[i + l] ? 1 : -1; e += c * c; } return mf ? double(n) * n / (2.0 * e) : -double(e); }; break; }
  case K_CANC: r.f.reset(new SummationCancellation(n)); r.ref = [](const BV& x) { return cancel(x, false); }; d << "SummationCancellation"; r.exact = false; r.scale = n * n; r.hint = BV(n, 0); break;
  case K_SINCANC: r.f.reset(new SinusSummationCancellation(n)); r.ref = [](const BV& x) { return cancel(x, true); }; d << "SinusSummationCancellation"; r.exact = false; r.scale = n * n; r.hint = BV(n, 0); break;
  case K_LIN: { W w = gen_w(g, n); auto f = new LinearFunction; f->generate(n, Feed(w)); r.f.reset(f); d << "Linear" << pbt::showv(w); r.exact = false; r.scale = sumabs(w); r.ref = [w](const BV& x) { long double s = 0; for (size_t i = 0; i < w.size(); i++) if (x[i]) s += w[i]; return double(s); }; r.hint = BV(n); for (int i = 0; i < n; i++) r.hint[i] = w[i] > 0; break; }
  case K_SAT: case K_NAE: { Cnf e = gen_cnf(g, n, g.small(1, 25), k == K_NAE); std::string p = tmpfile_path("cnf"); spit(p, cnf_text(e, n)); if (k == K_SAT) { auto f = new MaxSat; r.f.reset(f); f->load(p); r.ref = [e](const BV& x) { return sat_value(e, x); }; d << "MaxSat"; } else { auto f = new MaxNae3Sat; r.f.reset(f); f->load(p); r.ref = [e](const BV& x) { return nae_value(e, x); }; d << "MaxNae3Sat"; } unlink(p.c_str()); d << e.size() << "clauses"; break; }
  case K_NK: { int kk = g.irange(1, std::min(5, n - 1)); W w = gen_w(g, n * (1 << (kk + 1))); auto f = new NkLandscape; r.f.reset(f); if (g.chance(1, 4)) { int m = g.irange(2, 6); f->random(m, g.irange(1, m - 1)); } f->generate(n, kk, Feed(w)); auto nb = nk_neighbors(*f); r.exact = false; r.scale = sumabs(w); d << "Nk(" << kk << ")";
    REQUIRE(int(nb.size()) == n, "nk-structure", nb.size()); for (int i = 0; i < n; i++) { std::set<int> s(nb[i].begin(), nb[i].end()); REQUIRE(int(nb[i].size()) == kk + 1 && int(s.size()) == kk + 1 && s.count(i) && *s.begin() >= 0 && *s.rbegin() < n, "nk-structure", i << pbt::showv(nb[i])); }
    r.ref = [nb, w, n, kk](const BV& x) { long double s = 0; for (int i = 0; i < n; i++) { int ix = 0; for (size_t j = 0; j < nb[i].size(); j++) ix += x[nb[i][j]] << j; s += w[i * (1 << (kk + 1)) + ix]; } return double(s / n); }; break; }
  case K_QUBO: { std::vector<std::tuple<int, int, double>> e; std::map<std::pair<int, int>, double> q; int m = g.small(0, n * (n + 1) / 2 > 40 ? 40 : n * (n + 1) / 2), nd = 0, no = 0; std::ostringstream o; o.precision(17); for (int t = 0; t < m; t++) { int i = g.below(n), j = g.irange(i, n - 1); if (q.count({i, j})) continue; double v = g.weight(); if (v == 0) v = 1; q[{i, j}] = v; (i == j ? nd : no)++; o << i << " " << j << " " << v << "\n"; }
    std::string p = tmpfile_path("qubo"); std::ostringstream h; h << "c test\np qubo 0 " << n << " " << nd << " " << no << "\n" << o.str(); spit(p, h.str()); auto f = new Qubo; r.f.reset(f); f->load(p); unlink(p.c_str()); d << "Qubo(" << q.size() << ")"; r.exact = false; double s = 0; for (auto& x : q) s += std::fabs(x.second); r.scale = s; r.ref = [q](const BV& x) { long double v = 0; for (auto& t : q) if (x[t.first.first] && x[t.first.second]) v -= t.second; return double(v); }; break; }
  case K_PART: { int hi = g.pick(std::vector<int>{3, 100, 1000000, 2000000000}); std::vector<int> w(n); for (auto& v : w) v = g.irange(1, hi); size_t ix = 0; auto f = new Partition; f->generate(n, [&]() { return w[ix++]; }); r.f.reset(f); d << "Partition" << pbt::showv(w); r.ref = [w](const BV& x) { long long s = 0; for (size_t i = 0; i < w.size(); i++) s += x[i] ? w[i] : -(long long)w[i]; return -double(std::llabs(s)); }; break; }
  case K_EQP: { W w(n); for (auto& v : w) v = g.real(0, 2); auto f = new EqualProducts; f->generate(n, Feed(w)); r.f.reset(f); d << "EqualProducts"; r.exact = false; r.scale = 0; double pr = 1; for (double v : w) pr *= std::max(1.0, v); r.scale = pr; r.ref = [w](const BV& x) { long double a = 1, b = 1; for (size_t i = 0; i < w.size(); i++) (x[i] ? a : b) *= w[i]; return -double(std::fabs(a - b)); }; break; }
  case K_ISING1: { W c = gen_w(g, n), h = gen_w(g, n); bool per = g.flag(); auto f = new NearestNeighborIsingModel1; r.f.reset(f); if (g.chance(1, 4)) f->random(g.small(1, 8)); f->generate(n, Feed(c), Feed(h)); f->set_periodic_boundary_conditions(per); d << "Ising1" << (per ? "(periodic)" : "") << pbt::showv(c) << pbt::showv(h); r.exact = false; r.scale = sumabs(c) + sumabs(h);
    r.ref = [c, h, per, n](const BV& x) { long double v = 0; for (int i = 0; i < n; i++) { v += h[i] * S(x, i); if (i + 1 < n || per) v += c[i] * S(x, i) * S(x, (i + 1) % n); } return double(v); }; break; }
  case K_ISING2: { std::vector<int> ds; for (int t = 1; t <= n; t++) if (n % t == 0) ds.push_back(t); int R = g.pick(ds), C = n / R; W c = gen_w(g, 2 * n), h = gen_w(g, n); bool per = g.flag(); auto f = new NearestNeighborIsingModel2; r.f.reset(f); if (g.chance(1, 4)) f->random(g.small(1, 4), g.small(1, 4)); f->generate(R, C, Feed(c), Feed(h)); f->set_periodic_boundary_conditions(per); d << "Ising2(" << R << "x" << C << (per ? ",periodic)" : ")"); r.exact = false; r.scale = sumabs(c) + sumabs(h);
    r.ref = [c, h, per, R, C](const BV& x) { long double v = 0; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int s = i * C + j; v += h[s] * S(x, s); if (j + 1 < C || per) v += c[2 * s] * S(x, s) * S(x, i * C + (j + 1) % C); if (i + 1 < R || per) v += c[2 * s + 1] * S(x, s) * S(x, ((i + 1) % R) * C + j); } return double(v); }; break; }
  case K_WALSH: { int m = g.small(1, 20); W w = gen_w(g, m); std::vector<WalshTerm> t(m); std::vector<BV> u(m); for (int i = 0; i < m; i++) { u[i] = g.bits(n); t[i].feature.assign(u[i].begin(), u[i].end()); t[i].coefficient = w[i]; } auto f = new WalshExpansion; r.f.reset(f); f->set_terms(t); d << "Walsh(" << m << ")"; r.exact = false; r.scale = sumabs(w);
    r.ref = [u, w](const BV& x) { long double v = 0; for (size_t i = 0; i < u.size(); i++) { int p = 0; for (size_t j = 0; j < x.size(); j++) p ^= u[i][j] & x[j]; v += p ? -w[i] : w[i]; } return double(v); }; break; }
  case K_WALSH1: { W w = gen_w(g, n); auto f = new WalshExpansion1; f->generate(n, Feed(w)); r.f.reset(f); d << "Walsh1" << pbt::showv(w); r.exact = false; r.scale = sumabs(w); r.ref = [w](const BV& x) { long double v = 0; for (size_t i = 0; i < w.size(); i++) v += w[i] * S(x, i); return double(v); }; r.hint = BV(n); for (int i = 0; i < n; i++) r.hint[i] = w[i] < 0; break; }
  case K_WALSH2: { W a = gen_w(g, n), q = gen_w(g, n * (n - 1) / 2); auto f = new WalshExpansion2; r.f.reset(f); if (g.chance(1, 4)) f->random(g.small(1, 8)); f->generate(n, Feed(a), Feed(q)); d << "Walsh2" << pbt::showv(a); r.exact = false; r.scale = sumabs(a) + sumabs(q);
    r.ref = [a, q, n](const BV& x) { long double v = 0; size_t t = 0; for (int i = 0; i < n; i++) v += a[i] * S(x, i); for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) v += q[t++] * S(x, i) * S(x, j); return double(v); }; break; }
  case K_WLR: case K_WLRP: { double al = g.flag() ? double(g.range(0, 4)) : g.real(0, 3); bool per = k == K_WLRP; auto f = new WalshExpansion2; r.f.reset(f); if (g.chance(1, 4)) f->random(g.small(1, 8)); if (per) f->generate_ising1_long_range_periodic(n, al); else f->generate_ising1_long_range(n, al); d << "Ising1LongRange" << (per ? "P(" : "(") << al << ")"; r.exact = false; r.scale = n * n;
    r.ref = [al, per, n](const BV& x) { long double v = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { double dd = i - j; if (per) dd = std::min(dd, n - dd); v += std::pow(dd, -al) * S(x, i) * S(x, j); } return double(v); }; break; }
  case K_FACT: { int b = 2; while ((b + 1) / 2 + b - 1 != n) b++; uint64_t N = (1ULL << (b - 1)) | g.below(1ULL << (b - 1)); if (b >= 6 && g.flag()) { uint64_t p = g.irange(3, (1 << (b / 2)) - 1), q = N / p; if (bitlen(p * q) == b) N = p * q; } auto f = new Factorization(std::to_string(N)); r.f.reset(f); d << "Factorization(" << N << ")"; int s1 = (b + 1) / 2, s2 = b - 1; r.ref = [N, s1, s2](const BV& x) { return factor_value(N, s1, s2, x); }; break; }
  }
  d << " n=" << n; r.name = d.str();
  REQUIRE(r.f->get_bv_size() == n, "bv-size", r.name << " says " << r.f->get_bv_size());
  return r;
}
enum { ANY = 0, INCR = 1, MAX = 2 };
inline Fn gen_fn(Gen& g, int n, int filter = ANY) {
  std::vector<int> ks; for (int k = 0; k < K_COUNT; k++) if (feasible(k, n) && (!(filter & INCR) || k_incr(k)) && (!(filter & MAX) || k_max(k))) ks.push_back(k);
  return make_kind(g, g.pick(ks), n);
}
// A size at which special functions also exist reasonably often
inline int gen_n(Gen& g, int lo, int hi) { if (hi >= 18 && g.chance(1, 6)) return 9 * g.irange(1, hi / 9); if (g.chance(1, 6)) { int p = 1; std::vector<int> v; while (p <= hi) { if (p >= lo) v.push_back(p); p *= 2; } return g.pick(v); } return g.small(lo, hi); }
inline BV gen_point(Gen& g, const Fn& f) { if (!f.hint.empty() && g.chance(1, 3)) return gen_near(g, f.hint); return g.bits(f.n); }
}
#endif
