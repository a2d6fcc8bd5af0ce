// P10: instance files are read faithfully or rejected cleanly.
#include "functions.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/maps/map.hh"
using namespace cat; using namespace hnco::map;
static std::string file(const std::string& s) { std::string p = tmpfile_path("instance"); spit(p, s); return p; }
// ---- layout of text files
static std::string eol(Gen& g, int mode) { return mode == 1 ? "\r\n" : "\n"; }
static std::string blank(Gen& g, bool some) { static const char *b[] = {" ", "  ", "\t", " \t ", "    "}; if (!some && g.flag()) return ""; return b[g.below(5)]; }
static std::string integer(Gen& g, long v) { std::string s = std::to_string(std::labs(v)); if (g.chance(1, 12)) s = std::string(g.irange(1, 3), '0') + s; if (v < 0) s = "-" + s; else if (g.chance(1, 12)) s = "+" + s; return s; }
// A textual form which reads back as exactly v
static std::string number(Gen& g, double v) { char b[400]; switch (g.below(5)) { case 0: snprintf(b, sizeof b, "%.17g", v); break; case 1: snprintf(b, sizeof b, "%.17e", v); break; case 2: snprintf(b, sizeof b, "%.16E", v); break; case 3: if (std::fabs(v) < 1e15 && v == std::floor(v)) { snprintf(b, sizeof b, g.flag() ? "%.0f" : "%.3f", v); break; } // fallthrough
  default: snprintf(b, sizeof b, "%.20g", v); } std::string s = b; if (v > 0 && g.chance(1, 10)) s = "+" + s; return s; }
static std::string comment_text(Gen& g) { static const char *t[] = {"", " this is a comment", " p cnf 3 2", " 1 2 0", "c", "\tno", " 0 0 1.5", " :"}; return std::string("c") + t[g.below(8)]; }
static void noise(Gen& g, std::string& s, int mode, bool comments) { while (g.chance(1, 5)) { if (comments && g.flag()) s += comment_text(g) + eol(g, mode); else s += (g.flag() ? "" : blank(g, true)) + eol(g, mode); } }
static void drop_last_newline(Gen& g, std::string& s) { if (g.chance(1, 3)) { if (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty() && s.back() == '\r') s.pop_back(); } }
static std::string render_cnf(Gen& g, const Cnf& e, int n) {
  int m = g.below(2); std::string s; noise(g, s, m, true); s += "p" + blank(g, true) + "cnf" + blank(g, true) + integer(g, n) + blank(g, true) + integer(g, e.size()) + blank(g, false) + eol(g, m);
  for (auto& c : e) { noise(g, s, m, true); s += g.chance(1, 6) ? blank(g, true) : ""; for (int l : c) s += integer(g, l) + blank(g, true); s += "0" + blank(g, false) + eol(g, m); } noise(g, s, m, true); drop_last_newline(g, s); return s;
}
template<class F> static void faithful_cnf(Gen& g, bool three) {
  F f; int rounds = g.irange(1, 2); for (int r = 0; r < rounds; r++) { int n = g.chance(1, 10) ? g.irange(50, 300) : g.small(1, 20); Cnf e = gen_cnf(g, n, g.small(1, 30), three); std::string s = render_cnf(g, e, n); g.note() << (r ? " | " : "") << s; g.nontrivial(n > 2 && e.size() > 2); f.load(file(s));
    REQUIRE(f.get_bv_size() == n, "cnf-size", f.get_bv_size() << " for " << n); for (int t = 0; t < 6; t++) { BV x = g.bits(n); double v = f.evaluate(x), w = three ? nae_value(e, x) : sat_value(e, x); REQUIRE(v == w, "cnf-value", "x=" << pbt::show(x) << " value " << v << " expected " << w); } }
}
PBT(cnf, 12000, 120000) { faithful_cnf<MaxSat>(g, false); }
PBT(nae3sat, 6000, 60000) { faithful_cnf<MaxNae3Sat>(g, true); }
struct Q { int n; std::map<std::pair<int, int>, double> q; };
static std::string render_qubo(Gen& g, const Q& q) {
  int m = g.below(2), d = 0; for (auto& t : q.q) d += t.first.first == t.first.second; std::string s; noise(g, s, m, true);
  s += "p" + blank(g, true) + "qubo" + blank(g, true) + "0" + blank(g, true) + integer(g, q.n) + blank(g, true) + integer(g, d) + blank(g, true) + integer(g, q.q.size() - d) + blank(g, false) + eol(g, m);
  std::vector<std::pair<std::pair<int, int>, double>> v(q.q.begin(), q.q.end()); for (int i : gen_perm(g, v.size())) { noise(g, s, m, true); s += (g.chance(1, 6) ? blank(g, true) : "") + integer(g, v[i].first.first) + blank(g, true) + integer(g, v[i].first.second) + blank(g, true) + number(g, v[i].second) + blank(g, false) + eol(g, m); }
  noise(g, s, m, true); drop_last_newline(g, s); return s;
}
static Q gen_qubo(Gen& g) { Q q; q.n = g.small(1, 15); int m = g.small(0, 40), big = g.chance(1, 6); for (int t = 0; t < m; t++) { int i = g.below(q.n), j = g.irange(i, q.n - 1); double v = big ? g.finite() : g.weight(); if (v == 0 || std::fabs(v) > 1e100 || std::fabs(v) < 1e-300) v = -2.5; q.q[{i, j}] = v; } return q; }
PBT(qubo, 12000, 120000) {
  Qubo f; int rounds = g.irange(1, 2); for (int r = 0; r < rounds; r++) { Q q = gen_qubo(g); std::string s = render_qubo(g, q); g.note() << (r ? " | " : "") << s; g.nontrivial(q.q.size() > 2); f.load(file(s)); REQUIRE(f.get_bv_size() == q.n, "qubo-size", f.get_bv_size());
    double sc = 0; for (auto& t : q.q) sc += std::fabs(t.second); for (int t = 0; t < 6; t++) { BV x = g.bits(q.n); long double w = 0; for (auto& e : q.q) if (x[e.first.first] && x[e.first.second]) w -= e.second; double v = f.evaluate(x); REQUIRE(pbt::close(v, double(w), sc, 1e-13), "qubo-value", "x=" << pbt::show(x) << " value " << v << " expected " << double(w)); }
    for (auto& e : q.q) if (e.first.first == e.first.second) { BV x(q.n, 0); x[e.first.first] = 1; REQUIRE(f.evaluate(x) == -e.second, "qubo-coefficient", "Q" << e.first.first << " = " << -f.evaluate(x) << " for " << e.second); } }
}
struct T { int n; bool att; std::vector<double> x, y; std::string name; };
static T gen_tsp(Gen& g) { T t; t.n = g.small(1, 12); t.att = g.flag(); t.name = g.pick(std::vector<std::string>{"a280", "x", "my-tour", "TSP", "NAME"}); int m = g.below(5); for (int i = 0; i < t.n; i++) for (auto *v : {&t.x, &t.y}) v->push_back(m == 0 ? double(g.range(0, 20)) : m == 1 ? double(g.range(-1000, 1000)) : m == 2 ? double(float(g.real(-100, 100))) : m == 3 ? double(g.range(-4, 4)) / 4 : double(float(g.real(0, 1e6)))); return t; }
static std::string key(Gen& g, const std::string& k, const std::string& v) { static const char *c[] = {": ", " : ", ":", " :\t", "\t:  "}; return (g.chance(1, 10) ? blank(g, true) : "") + k + c[g.below(5)] + v + blank(g, false); }
static std::string render_tsp(Gen& g, const T& t) {
  int m = g.below(2); std::vector<std::string> h = {key(g, "TYPE", "TSP"), key(g, "DIMENSION", integer(g, t.n)), key(g, "EDGE_WEIGHT_TYPE", t.att ? "ATT" : "EUC_2D")}; if (g.flag()) h.push_back(key(g, "NAME", t.name)); if (g.flag()) h.push_back(key(g, "COMMENT", g.pick(std::vector<std::string>{"drilling problem (Ludwig)", "", "TYPE : CVRP", "a:b:c", "DIMENSION : 3"}))); if (g.chance(1, 4)) h.push_back(key(g, "COMMENT", "another one")); if (g.chance(1, 4)) h.push_back(key(g, "DISPLAY_DATA_TYPE", "COORD_DISPLAY")); if (g.chance(1, 4)) h.push_back(key(g, "NODE_COORD_TYPE", "TWOD_COORDS"));
  std::string s; for (int i : gen_perm(g, h.size())) { noise(g, s, m, false); s += h[i] + eol(g, m); } noise(g, s, m, false); s += std::string("NODE_COORD_SECTION") + (g.chance(1, 4) ? " " : "") + eol(g, m);
  for (int i : gen_perm(g, t.n)) { noise(g, s, m, false); s += (g.chance(1, 3) ? blank(g, true) : "") + integer(g, i + 1) + blank(g, true) + number(g, t.x[i]) + blank(g, true) + number(g, t.y[i]) + blank(g, false) + eol(g, m); }
  switch (g.below(4)) { case 0: s += "EOF"; break; case 1: s += "EOF" + eol(g, m); break; case 2: s += "EOF" + eol(g, m) + eol(g, m); break; default: drop_last_newline(g, s); } return s;
}
// Smallest and largest acceptable distance: coordinates are kept in single precision, so that a value which is a hair away from a rounding boundary may go either way
static void tsp_distance(const T& t, int i, int j, double& lo, double& hi) {
  double dx = t.x[i] - t.x[j], dy = t.y[i] - t.y[j], r = std::sqrt(t.att ? (dx * dx + dy * dy) / 10 : dx * dx + dy * dy), mag = std::max(std::max(std::fabs(t.x[i]), std::fabs(t.x[j])), std::max(std::fabs(t.y[i]), std::fabs(t.y[j]))), eps = 3e-7 * (r + mag);
  auto d = [&](double r) { if (r < 0) r = 0; if (!t.att) return std::floor(r + 0.5); double k = std::floor(r + 0.5); return k < r ? k + 1 : k; }; if (i == j) { lo = hi = 0; return; } lo = d(r - eps); hi = d(r + eps);
}
PBT(tsp, 12000, 120000) {
  Tsp f; int rounds = g.irange(1, 2); for (int r = 0; r < rounds; r++) { T t = gen_tsp(g); std::string s = render_tsp(g, t); g.note() << (r ? " | " : "") << s; g.nontrivial(t.n > 2); f.load(file(s)); REQUIRE(f.get_num_elements() == t.n, "tsp-size", f.get_num_elements() << " for " << t.n);
    for (int k = 0; k < 5; k++) { auto p = gen_perm(g, t.n); double lo = 0, hi = 0; for (int i = 0; i < t.n; i++) { double a, b; tsp_distance(t, p[i], p[(i + 1) % t.n], a, b); lo += a; hi += b; } double v = -f.evaluate(hnco::permutation_t(p.begin(), p.end())); REQUIRE(v >= lo && v <= hi, "tsp-length", "tour " << pbt::showv(p) << " length " << v << " expected " << lo << (lo < hi ? " .. " + std::to_string(hi) : "")); } }
}
PBT(sudoku, 6000, 60000) {
  Sudoku f; int rounds = g.irange(1, 2); for (int r = 0; r < rounds; r++) { std::vector<std::string> b(9, std::string(9, '.')); int c = 0; std::string s; int m = g.below(2); for (auto& l : b) { for (auto& ch : l) { ch = g.chance(1, 2) ? '.' : '1' + g.below(9); c += ch == '.'; } s += l + (g.chance(1, 6) ? g.pick(std::vector<std::string>{" ", "  row", "\t", "x123456789"}) : "") + eol(g, m); } if (g.chance(1, 4)) s += "extra" + eol(g, m); if (g.chance(1, 4)) s += eol(g, m); drop_last_newline(g, s); g.note() << (r ? " | " : "") << s; g.nontrivial(c > 0 && c < 81);
    f.load(file(s)); REQUIRE(f.get_num_variables() == c, "sudoku-size", f.get_num_variables() << " for " << c); std::ostringstream o; f.display(o); std::string d; for (char ch : o.str()) if (ch == '.' || isdigit(ch)) d += ch; std::string e; for (auto& l : b) e += l; REQUIRE(d == e, "sudoku-grid", o.str()); }
}
PBT(solution, 12000, 120000) {
  BV x = g.bits(g.chance(1, 10) ? g.irange(100, 3000) : g.small(0, 40)); std::string s; for (auto b : x) s += char('0' + b); g.nontrivial(mixed(x)); g.note() << s; if (g.flag()) s += "\n"; if (!s.empty() && s.back() == '\n' && g.flag()) s += g.pick(std::vector<std::string>{"\n", "0101\n", "junk", "\n\n"});
  std::ifstream in(file(s)); BV y = hnco::bv_from_stream(in); REQUIRE(y == x, "solution", pbt::show(y));
}
PBT(factorization, 6000, 60000) {
  Factorization f; int rounds = g.irange(1, 3); for (int r = 0; r < rounds; r++) { int b = g.small(1, 40); uint64_t N = (1ULL << (b - 1)) | g.below(1ULL << (b - 1)); std::string s = std::to_string(N); if (g.chance(1, 8)) s = "000" + s; if (g.chance(1, 4)) s = "\n " + s; s += g.pick(std::vector<std::string>{"", "\n", "\r\n", "  \n\n"}); g.nontrivial(N > 3); g.note() << N << " "; f.load(file(s)); int s1 = (b + 1) / 2, s2 = b - 1; REQUIRE(f.get_bv_size() == s1 + s2, "factorization-size", f.get_bv_size());
    for (int t = 0; t < 4; t++) { BV x = g.bits(s1 + s2); REQUIRE(f.evaluate(x) == factor_value(N, s1, s2, x), "factorization-value", N << " x=" << pbt::show(x) << " " << f.evaluate(x)); } }
}
// ---- damaged files
static std::string mutate(Gen& g, std::string s, bool text) {
  static const char *frag[] = {"0", "-1", "1", "2147483647", "-2147483648", "2147483648", "99999999999999999999999", "-", "+", "1e400", "1e38", "-1e-400", "nan", "inf", "0x10", "%", "c", "p cnf", "p qubo 0 2 1 1", "p cnf 3 2\n", "NODE_COORD_SECTION\n", "EOF\n", ":", "\n", "\r\n", " ", "\t", "DIMENSION : 3\n", "EDGE_WEIGHT_TYPE : EUC_2D\n", "EDGE_WEIGHT_TYPE : GEO\n", "TYPE : CVRP\n", ".", ".........\n", "\xff", "1 2 3", "1.5"};
  int k = g.irange(1, 4); for (int i = 0; i < k; i++) { size_t n = s.size(), a = g.below(n + 1), l = std::min<size_t>(n - a, g.small(0, 20));
    auto lines = [&] { std::vector<std::string> v; std::istringstream in(s); std::string t; while (std::getline(in, t)) v.push_back(t); return v; }; auto join = [&](const std::vector<std::string>& v) { s.clear(); for (auto& t : v) s += t + "\n"; };
    switch (g.below(10)) {
    case 0: s.resize(a); break;
    case 1: s.erase(a, l); break;
    case 2: s.insert(a, s.substr(a, l)); break;
    case 3: s.insert(a, frag[g.below(sizeof frag / sizeof *frag)]); break;
    case 4: case 5: { // replace a token
      std::vector<std::pair<size_t, size_t>> tok; for (size_t p = 0; p < n;) { if (isspace((unsigned char)s[p])) { p++; continue; } size_t q = p; while (q < n && !isspace((unsigned char)s[q])) q++; tok.push_back({p, q}); p = q; } if (tok.empty()) break; auto t = g.pick(tok); s.replace(t.first, t.second - t.first, frag[g.below(sizeof frag / sizeof *frag)]); break; }
    case 6: { auto v = lines(); if (v.size() < 2) break; std::swap(v[g.below(v.size())], v[g.below(v.size())]); join(v); break; }
    case 7: { auto v = lines(); if (v.empty()) break; size_t j = g.below(v.size()); if (g.flag()) v.erase(v.begin() + j); else v.insert(v.begin() + j, v[g.below(v.size())]); join(v); break; }
    case 8: if (n) s[g.below(n)] = char(g.below(256)); break;
    default: if (n) { char& ch = s[g.below(n)]; ch = "0123456789-. \n"[g.below(14)]; } } }
  return s;
}
// Dense instances of a huge declared size are a matter of memory, not of parsing
static bool too_large(const std::string& s) {
  std::istringstream in(s); std::string line; while (std::getline(in, line)) { bool d = line.find("DIMENSION") != std::string::npos, q = line[0] == 'p' && line.find("qubo") != std::string::npos; if (!d && !q) continue; long v = 0; int digits = 0; for (char c : line + " ") if (isdigit((unsigned char)c)) { digits++; v = digits > 12 ? v : v * 10 + (c - '0'); } else { if (v > 300 && v < 4294967296L) return true; v = 0; digits = 0; } } return false;
}
static std::string outcome(const std::function<std::string()>& f) { try { return f(); } catch (std::exception& e) { return std::string("rejected"); } }
static std::string use(Function& f, const std::vector<BV>& raw) { std::ostringstream o; o.precision(17); int n = f.get_bv_size(); o << n; if (n < 0) FAIL("negative-size", n); if (n > 100000) return o.str(); for (auto x : raw) { x.resize(n, x[0]); o << " " << f.evaluate(x) << "/" << f.evaluate_safely(x); f.describe(x, o); } f.display(o); return o.str(); }
static std::string use(Tsp& f, const std::vector<BV>&) { std::ostringstream o; o.precision(17); int n = f.get_num_elements(); o << n; if (n < 1) FAIL("empty-tsp", n); hnco::permutation_t p(n); std::iota(p.begin(), p.end(), 0); o << " " << f.evaluate(p); if (n > 2) { std::swap(p[0], p[n / 2]); o << " " << f.evaluate(p); } f.display(o); f.describe(p, o); return o.str(); }
static std::string use(Sudoku& f, const std::vector<BV>& raw) { std::ostringstream o; int n = f.get_num_variables(); o << n; if (n < 0 || n > 81) FAIL("sudoku-variables", n); for (auto& x : raw) { std::vector<size_t> v(n); for (int i = 0; i < n; i++) v[i] = (x[i % 40] + i) % 9; o << " " << f.evaluate(v); f.describe(v, o); } f.display(o); return o.str(); }
template<class F, class R> static void damaged(Gen& g, R render) {
  std::string good = render(), other = render(), s = g.chance(1, 20) ? "" : mutate(g, g.chance(1, 10) ? good + other : good, true); if (too_large(s)) throw pbt::Discard(); std::vector<BV> raw; for (int i = 0; i < 3; i++) raw.push_back(g.bits(40)); g.note() << s.substr(0, 1500); g.nontrivial(s != good);
  std::string p = tmpfile_path("bad"); spit(p, s); F fresh; std::string a = outcome([&] { fresh.load(p); return use(fresh, raw); }); g.label(a == "rejected" ? "rejected" : "accepted");
  F used; used.load(file(other)); use(used, raw); std::string b = outcome([&] { used.load(p); return use(used, raw); }); REQUIRE(a == b, "depends-on-history", "a fresh object says: " << a.substr(0, 200) << "   one that held another instance: " << b.substr(0, 200));
  // an object whose loading failed can be given another instance
  used.load(file(good)); F ref; ref.load(file(good)); std::string c = use(used, raw), d = use(ref, raw); REQUIRE(c == d, "not-reusable-after-failure", c.substr(0, 200) << " / " << d.substr(0, 200)); unlink(p.c_str());
}
PBT(damaged_cnf, 12000, 120000) { damaged<MaxSat>(g, [&] { int n = g.small(1, 8); return render_cnf(g, gen_cnf(g, n, g.small(1, 8), false), n); }); }
PBT(damaged_nae, 6000, 60000) { damaged<MaxNae3Sat>(g, [&] { int n = g.small(1, 8); return render_cnf(g, gen_cnf(g, n, g.small(1, 8), true), n); }); }
PBT(damaged_qubo, 12000, 120000) { damaged<Qubo>(g, [&] { return render_qubo(g, gen_qubo(g)); }); }
PBT(damaged_tsp, 12000, 120000) { damaged<Tsp>(g, [&] { return render_tsp(g, gen_tsp(g)); }); }
PBT(damaged_sudoku, 8000, 80000) { damaged<Sudoku>(g, [&] { std::string s; for (int i = 0; i < 81; i++) { s += g.flag() ? '.' : char('1' + g.below(9)); if (i % 9 == 8) s += "\n"; } return s; }); }
PBT(damaged_factorization, 8000, 80000) { damaged<Factorization>(g, [&] { int b = g.small(1, 40); return std::to_string((1ULL << (b - 1)) | g.below(1ULL << (b - 1))) + "\n"; }); }
template<class F> static void refuse_folder() { F f; bool thrown = false; try { f.load(pbt::scratch()); } catch (std::exception&) { thrown = true; } REQUIRE(thrown, "folder", "a folder is accepted as an instance"); }
PBT(folder, 100, 1000) { g.nontrivial(); int k = g.below(8); g.note() << "folder, class " << k; switch (k) { case 0: refuse_folder<MaxSat>(); break; case 1: refuse_folder<MaxNae3Sat>(); break; case 2: refuse_folder<Qubo>(); break; case 3: refuse_folder<Tsp>(); break; case 4: refuse_folder<Sudoku>(); break; case 5: refuse_folder<Factorization>(); break; case 6: refuse_folder<NkLandscape>(); break; default: refuse_folder<LinearMap>(); } }
// ---- damaged archives
static std::string damage_archive(Gen& g, const std::string& s) {
  static const char *frag[] = {"0", "1", "2", "3", "4", "7", "-1", "-3", "17", "40", "255", "256", "1000", "99999999999999999999999", "nan", "x", "1.5", "-0", "1e5", "1e999", "serialization::archive"};
  std::vector<std::string> t; std::istringstream in(s); std::string w; while (in >> w) t.push_back(w); int k = g.irange(1, 3);
  for (int i = 0; i < k && !t.empty(); i++) { size_t a = g.chance(1, 5) ? g.below(t.size()) : g.below(std::min<size_t>(t.size(), 14)); switch (g.below(8)) { case 0: t.resize(a); break; case 1: t.erase(t.begin() + a); break; case 2: t.insert(t.begin() + a, frag[g.below(21)]); break; case 3: std::swap(t[a], t[g.below(t.size())]); break; case 4: { std::string& u = t[a]; if (u.size() < 5) u += char('0' + g.below(10)); break; } case 5: { std::string& u = t[a]; u[g.below(u.size())] = "0123456789-.e"[g.below(13)]; break; } default: t[a] = frag[g.below(21)]; } }
  std::string r; for (auto& u : t) { if (u.size() > 6 && u.find_first_not_of("0123456789") == std::string::npos && u.size() < 20) u.resize(5); r += (r.empty() ? "" : " ") + u; } if (g.flag()) r += "\n"; return r;
}
static std::string use(Map& m, const std::vector<BV>& raw) { std::ostringstream o; int n = m.get_input_size(), k = m.get_output_size(); o << n << " " << k; if (n > 20000 || k > 20000) return o.str(); o << m.is_surjective(); m.display(o); for (auto x : raw) { x.resize(n, x[0]); BV y(k); m.map(x, y); if (!valid(y)) FAIL("map-output", pbt::show(y)); o << " " << pbt::show(y); } return o.str(); }
static W small_w(Gen& g, int n) { return gen_w(g, n); }
template<class F> static void damaged_archive(Gen& g, const std::function<void(F&)>& make) {
  seed(g); F a; make(a); std::string p = tmpfile_path("arc"); a.save(p); std::string good = slurp_file(p), s = damage_archive(g, good); spit(p, s); std::vector<BV> raw; for (int i = 0; i < 3; i++) raw.push_back(g.bits(40)); g.note() << s.substr(0, 600); g.nontrivial(s != good);
  F fresh; std::string x = outcome([&] { fresh.load(p); return use(fresh, raw); }); g.label(x == "rejected" ? "rejected" : "accepted"); F used; make(used); std::string y = outcome([&] { used.load(p); return use(used, raw); }); // (the two outcomes may differ: a damaged header can make the archive library skip an element)
  used.load((spit(p, good), p)); std::string z = use(used, raw), w = use(a, raw); REQUIRE(z == w, "not-reusable-after-failure", z.substr(0, 200) << " / " << w.substr(0, 200)); unlink(p.c_str());
}
static int asize(Gen& g) { return g.small(1, 12); }
PBT(archive_linear, 2500, 25000) { damaged_archive<LinearFunction>(g, [&](LinearFunction& f) { int n = asize(g); f.generate(n, Feed(small_w(g, n))); }); }
PBT(archive_walsh1, 2500, 25000) { damaged_archive<WalshExpansion1>(g, [&](WalshExpansion1& f) { int n = asize(g); f.generate(n, Feed(small_w(g, n))); }); }
PBT(archive_walsh2, 4000, 40000) { damaged_archive<WalshExpansion2>(g, [&](WalshExpansion2& f) { int n = asize(g); f.generate(n, Feed(small_w(g, n)), Feed(small_w(g, n * n))); }); }
PBT(archive_walsh, 4000, 40000) { damaged_archive<WalshExpansion>(g, [&](WalshExpansion& f) { int n = asize(g), m = g.small(1, 6); W w = small_w(g, m); std::vector<WalshTerm> t(m); for (int i = 0; i < m; i++) { BV u = g.bits(n); t[i].feature.assign(u.begin(), u.end()); t[i].coefficient = w[i]; } f.set_terms(t); }); }
PBT(archive_equal_products, 2500, 25000) { damaged_archive<EqualProducts>(g, [&](EqualProducts& f) { int n = asize(g); f.generate(n, Feed(small_w(g, n))); }); }
PBT(archive_partition, 2500, 25000) { damaged_archive<Partition>(g, [&](Partition& f) { f.random(asize(g), 100); }); }
PBT(archive_ising1, 4000, 40000) { damaged_archive<NearestNeighborIsingModel1>(g, [&](NearestNeighborIsingModel1& f) { f.random(asize(g)); f.set_periodic_boundary_conditions(g.flag()); }); }
PBT(archive_ising2, 4000, 40000) { damaged_archive<NearestNeighborIsingModel2>(g, [&](NearestNeighborIsingModel2& f) { f.random(g.small(1, 4), g.small(1, 4)); f.set_periodic_boundary_conditions(g.flag()); }); }
PBT(archive_nk, 4000, 40000) { damaged_archive<NkLandscape>(g, [&](NkLandscape& f) { int n = g.irange(2, 8); f.random(n, g.irange(1, std::min(3, n - 1))); }); }
PBT(archive_translation, 2500, 25000) { damaged_archive<Translation>(g, [&](Translation& m) { m.random(asize(g)); }); }
PBT(archive_permutation, 4000, 40000) { damaged_archive<hnco::map::Permutation>(g, [&](hnco::map::Permutation& m) { m.random(asize(g)); }); }
PBT(archive_linear_map, 4000, 40000) { damaged_archive<LinearMap>(g, [&](LinearMap& m) { m.random(asize(g), asize(g), false); }); }
PBT(archive_affine_map, 4000, 40000) { damaged_archive<AffineMap>(g, [&](AffineMap& m) { m.random(asize(g), asize(g), false); }); }
PBT(archive_ts_affine_map, 4000, 40000) { damaged_archive<TsAffineMap>(g, [&](TsAffineMap& m) { m.random(g.irange(2, 10), g.small(0, 8), g.below(6)); }); }
