// Running the command-line tools, and what their options mean (written from
// their documentation, in terms of the library).
#ifndef VERIF_CLI_HH
#define VERIF_CLI_HH
#define VERIF_THIRD_PARTY
#include "functions.hh"
#include "hnco/functions/collection/plugin.hh"
#include "algorithms.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/representations/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <iostream>
extern char **environ;
namespace cli {
typedef std::vector<std::string> Args;
inline Args operator+(Args a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string six(double v) { std::ostringstream o; o << v; return o.str(); } // as the tools print
inline std::string join(const Args& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + (x.find_first_of(" ()*;:{") == std::string::npos && !x.empty() ? x : "'" + x + "'"); return s; }
inline std::string path(const std::string& n) { return tmpfile_path(n); }
struct Res { int code = -1, sig = 0; bool hang = false; std::string out, err; std::string why() const { std::ostringstream o; if (hang) o << "did not end"; else if (sig) o << "killed by signal " << sig; else o << "exit status " << code; o << "; stderr: " << err.substr(0, 1200); return o.str(); } bool ended() const { return !sig && !hang; } };
inline Res run(const std::string& tool, const Args& args, double limit = 30) {
  static std::string build = getenv("VERIF_BUILD") ? getenv("VERIF_BUILD") : "."; std::string exe = build + "/cli-" + tool; Res r;
  std::string o = path("stdout"), e = path("stderr"); std::vector<char *> av; std::string a0 = tool; av.push_back(&a0[0]); Args copy = args; for (auto& s : copy) av.push_back(&s[0]); av.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addchdir_np(&fa, pbt::scratch().c_str());
  pid_t pid; int rc = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa); if (rc) FAIL("spawn", exe << ": " << strerror(rc));
  int st = 0; double t = 0; useconds_t nap = 300; for (;;) { pid_t w = waitpid(pid, &st, WNOHANG); if (w == pid) break; usleep(nap); t += nap * 1e-6; if (nap < 5000) nap = nap * 5 / 4; if (t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; } }
  if (!r.hang) { if (WIFSIGNALED(st)) r.sig = WTERMSIG(st); else r.code = WEXITSTATUS(st); } r.out = slurp_file(o); r.err = slurp_file(e); if (r.err.find("AddressSanitizer") != std::string::npos && !r.sig) r.sig = SIGSEGV; return r;
}
struct Results { bool ok = false; double value = 0; std::string vtext; long evals = -1, total = -1; int success = -1; double lookup = -1; };
inline Results parse(const std::string& s) {
  Results r; auto field = [&](const std::string& k) { size_t p = s.find("\"" + k + "\":"); if (p == std::string::npos) return std::string(); p = s.find(':', p) + 1; size_t q = s.find_first_of(",\n}", p); std::string v = s.substr(p, q - p); v.erase(0, v.find_first_not_of(' ')); return v; };
  r.vtext = field("value"); r.ok = !r.vtext.empty(); r.value = std::atof(r.vtext.c_str()); if (!field("num_evaluations").empty()) r.evals = std::atol(field("num_evaluations").c_str()); if (!field("total_num_evaluations").empty()) r.total = std::atol(field("total_num_evaluations").c_str());
  if (field("success") == "true") r.success = 1; if (field("success") == "false") r.success = 0; if (!field("lookup_ratio").empty()) r.lookup = std::atof(field("lookup_ratio").c_str()); return r;
}
inline std::string text(const BV& x) { std::string s; for (auto b : x) s += b ? '1' : '0'; return s; }

// Options, given or left to their documented default
struct Opt {
  Gen& g; Args a; Opt(Gen& g): g(g) {}
  int I(const std::string& o, int dflt, int v, bool force = false) { if (!force && g.chance(1, 4)) return dflt; a.push_back(o); a.push_back(std::to_string(v)); return v; }
  double D(const std::string& o, double dflt, double v, bool force = false) { if (!force && g.chance(1, 4)) return dflt; a.push_back(o); a.push_back(num(v)); return v; }
  bool F(const std::string& o) { bool b = g.flag(); if (b) a.push_back(o); return b; }
  bool F(const std::string& o, int k, int n) { bool b = g.chance(k, n); if (b) a.push_back(o); return b; }
  std::string L(const char *s, const char *l) { return g.flag() ? s : l; }
};

// A function asked on the command line and the same function from the library
struct Fun { Args a; cat::FP f; std::string name; int n = 0; std::function<double(const BV&)> ref; bool known = false, noisy = false; };
template<class T> inline cat::FP loaded(const std::string& p) { auto f = std::make_shared<T>(); f->load(p); return f; }
inline std::string sudoku_text(Gen& g) { std::string t; for (int r = 0; r < 9; r++) { for (int c = 0; c < 9; c++) t += g.chance(1, 8) ? '.' : char('1' + (r * 3 + r / 3 + c) % 9); t += "\n"; } return t; }
enum { ALL, SMALL };
inline std::string plugin() { // a shared library with three functions, built once per process
  static std::string so; static bool done = false; if (done) return so; done = true; std::string c = path("plug.c"), l = path("plug.so");
  spit(c, "#include <stddef.h>\ndouble wsum(const unsigned char *x, size_t n) { double s = 0; for (size_t i = 0; i < n; i++) s += x[i] ? (double)(i + 1) : -0.5; return s; }\ndouble pairs(const unsigned char *x, size_t n) { double s = 0; for (size_t i = 1; i < n; i++) s += x[i] != x[i - 1]; return s; }\ndouble blocks(const unsigned char *x, size_t n) { double s = 0, r = 0; for (size_t i = 0; i < n; i++) { r = x[i] ? r + 1 : 0; if (r > s) s = r; } return s; }\n");
  if (system(("cc -shared -fPIC -o " + l + " " + c).c_str()) == 0) so = l; return so;
}
inline Fun gen_fun(Gen& g, int hi = 24) {
  using namespace hnco::function; Fun r; Opt o(g); int n = g.chance(1, 3) ? 9 * g.irange(1, std::max(1, hi / 9)) : g.small(2, hi); auto S = [&]() { o.a.push_back(g.flag() ? "-s" : "--bv-size"); o.a.push_back(std::to_string(n)); }; std::string p = path("fn");
  static const std::vector<int> ids{0, 5, 10, 11, 20, 30, 31, 40, 41, 80, 81, 100, 101, 110, 120, 130, 140, 1, 50, 60, 70, 71, 90, 91, 150, 160, 161, 162, 171, 172, 190, 200, 1000}; int id = g.pick(ids); o.a.push_back(g.flag() ? "-F" : "--function"); o.a.push_back(std::to_string(id));
  auto P = [&]() { o.a.push_back(g.flag() ? "-p" : "--path"); o.a.push_back(p); }; auto file = [&](int k) { auto q = cat::make_kind(g, k, n); P(); return q.f; };
  auto C = [&](Function *f) { r.f.reset(f); S(); };
  switch (id) {
  case 0: C(new OneMax(n)); break;
  case 5: { auto f = new LinearFunction; double w = 1; f->generate(n, [&]() { double v = w; w *= 2; return v; }); C(f); break; }
  case 10: C(new LeadingOnes(n)); break; case 11: C(new Ridge(n)); break; case 20: C(new Needle(n)); break;
  case 30: case 31: { int t = o.I(o.L("-t", "--fn-threshold"), 10, g.irange(1, n), n < 10); if (id == 30) C(new Jump(n, t)); else C(new DeceptiveJump(n, t)); break; }
  case 40: case 41: { int t = o.I(o.L("-t", "--fn-threshold"), 10, g.irange(0, n / 2 - 1), n < 22); if (id == 40) C(new FourPeaks(n, t)); else C(new SixPeaks(n, t)); break; }
  case 80: C(new Labs(n)); break; case 81: { auto f = new Labs(n); f->set_merit_factor_flag(true); C(f); break; }
  case 100: n = 9 * std::max(1, n / 9); C(new SummationCancellation(n)); break; case 101: n = 9 * std::max(1, n / 9); C(new SinusSummationCancellation(n)); break;
  case 110: { int t = g.irange(1, 6), k = g.irange(1, 4); if (g.chance(1, 3) && hi >= 20) { t = 10; k = g.irange(1, hi / 10); } n = t * k; t = o.I("--fn-num-traps", 10, t, t != 10); C(new Trap(n, t)); break; }
  case 120: n = 1 << g.irange(1, 4); C(new Hiff(n)); break; case 130: C(new Plateau(n)); break;
  case 140: { int k = g.irange(2, 4); n = k * g.irange(1, 5); k = o.I("--fn-prefix-length", 2, k, k != 2); C(new LongPath(n, k)); break; }
  case 1: { auto f = file(cat::K_LIN); std::static_pointer_cast<LinearFunction>(f)->save(p); r.f = loaded<LinearFunction>(p); break; }
  case 50: { std::ostringstream q; int m = g.small(1, 12); std::map<std::pair<int, int>, int> e; for (int t = 0; t < m; t++) { int i = g.below(n), j = g.irange(i, n - 1); int v = g.irange(-9, 9); e[{i, j}] = v ? v : 1; } int nd = 0; for (auto& x : e) nd += x.first.first == x.first.second; q << "p qubo 0 " << n << " " << nd << " " << e.size() - nd << "\n"; for (auto& x : e) q << x.first.first << " " << x.first.second << " " << x.second << "\n"; spit(p, q.str()); P(); r.f = loaded<Qubo>(p); break; }
  case 60: { auto f = file(cat::K_NK); std::static_pointer_cast<NkLandscape>(f)->save(p); r.f = loaded<NkLandscape>(p); break; }
  case 70: spit(p, cat::cnf_text(cat::gen_cnf(g, n, g.small(1, 20), false), n)); P(); r.f = loaded<MaxSat>(p); break;
  case 71: spit(p, cat::cnf_text(cat::gen_cnf(g, n, g.small(1, 20), true), n)); P(); r.f = loaded<MaxNae3Sat>(p); break;
  case 90: { auto f = file(cat::K_EQP); std::static_pointer_cast<EqualProducts>(f)->save(p); r.f = loaded<EqualProducts>(p); break; }
  case 91: { auto f = file(cat::K_PART); std::static_pointer_cast<Partition>(f)->save(p); r.f = loaded<Partition>(p); break; }
  case 150: { spit(p, std::to_string(g.irange(4, 60000)) + "\n"); P(); r.f = loaded<Factorization>(p); break; }
  case 160: { auto f = file(cat::K_WALSH); std::static_pointer_cast<WalshExpansion>(f)->save(p); r.f = loaded<WalshExpansion>(p); break; }
  case 161: { auto f = file(cat::K_WALSH1); std::static_pointer_cast<WalshExpansion1>(f)->save(p); r.f = loaded<WalshExpansion1>(p); break; }
  case 162: { auto f = file(cat::K_WALSH2); std::static_pointer_cast<WalshExpansion2>(f)->save(p); r.f = loaded<WalshExpansion2>(p); break; }
  case 171: { auto f = file(cat::K_ISING1); std::static_pointer_cast<NearestNeighborIsingModel1>(f)->save(p); r.f = loaded<NearestNeighborIsingModel1>(p); break; }
  case 172: { auto f = file(cat::K_ISING2); std::static_pointer_cast<NearestNeighborIsingModel2>(f)->save(p); r.f = loaded<NearestNeighborIsingModel2>(p); break; }
  case 1000: { std::string so = plugin(); if (so.empty()) throw pbt::Discard{}; std::string nm = g.pick(std::vector<std::string>{"wsum", "pairs", "blocks"}); o.a.push_back(g.flag() ? "-p" : "--path"); o.a.push_back(so); o.a.push_back("--fn-name"); o.a.push_back(nm); C(new FunctionPlugin(n, so, nm)); break; }
  case 190: { spit(p, sudoku_text(g)); P(); int rep = o.I("--rep-categorical-representation", 0, g.below(2)); r.known = true;
    auto s = std::make_shared<Sudoku>(); s->load(p); int m = s->get_num_variables(); if (m == 0) throw pbt::Discard{}; int bits = rep == 0 ? hnco::representation::IntegerCategoricalRepresentation(9).size() : hnco::representation::LinearCategoricalRepresentation(9).size(); r.n = m * bits;
    r.ref = [s, m, rep, bits](const BV& x) { std::vector<size_t> v(m); for (int i = 0; i < m; i++) { int c = 0; if (rep == 0) { hnco::representation::IntegerCategoricalRepresentation q(9); c = q.unpack(x, i * bits); } else { hnco::representation::LinearCategoricalRepresentation q(9); c = q.unpack(x, i * bits); } v[i] = c; } return double(s->evaluate(v)); }; break; }
  default: { int m = g.irange(3, 6); std::ostringstream t; t << "NAME: t\nTYPE: TSP\nDIMENSION: " << m << "\nEDGE_WEIGHT_TYPE: EUC_2D\nNODE_COORD_SECTION\n"; for (int i = 1; i <= m; i++) t << i << " " << g.irange(0, 50) << " " << g.irange(0, 50) << "\n"; t << "EOF\n"; spit(p, t.str()); P(); int ab = o.I("--rep-num-additional-bits", 2, g.irange(1, 4)); auto s = std::make_shared<Tsp>(); s->load(p); r.known = true; auto q = std::make_shared<hnco::representation::PermutationRepresentation>(m, ab); r.n = q->size();
    r.noisy = true; // the order of elements with equal codes is random
    r.ref = [s, q, m](const BV& x) { int w = int(x.size()) / m; std::set<std::vector<bool>> codes; for (int i = 0; i < m; i++) codes.insert(std::vector<bool>(x.begin() + i * w, x.begin() + (i + 1) * w)); if (int(codes.size()) < m) return std::nan(""); hnco::permutation_t pm(m); q->unpack(x, 0, pm); return s->evaluate(pm); }; break; }
  }
  if (r.f) { auto f = r.f; r.n = f->get_bv_size(); r.ref = [f](const BV& x) { return f->evaluate(x); }; }
  r.a = o.a; r.name = std::to_string(id); return r;
}

// An algorithm asked on the command line, and the same algorithm from the library
struct Alg { int id; Args a; std::function<alg::Inst()> make; bool budget_only = false, parallel = false, ends = false; };
inline Alg gen_alg(Gen& g, int n, int T, bool logs, std::function<bool(int)> ok = [](int) { return true; }) {
  using namespace hnco::algorithm; namespace wm = walsh_moment; using alg::Inst; Alg r; Opt o(g); static const std::vector<int> all{0, 10, 20, 100, 150, 160, 200, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612, 700, 800, 900, 901, 1000, 1001, 1100, 1110, 1200, 1250, 1300};
  std::vector<int> ids; for (int i : all) { bool two = i == 340 || i == 450 || i == 610 || i == 612 || (i >= 900 && i <= 1100); if ((i == 0 ? n <= 9 : two ? n >= 2 : true) && ok(i)) ids.push_back(i); } int id = r.id = g.pick(ids);
  if (id != 100 || g.flag()) o.a = Args{g.flag() ? "-A" : "--algorithm", std::to_string(id)};
  if (T > 0 || g.flag()) { o.a.push_back(g.flag() ? "-i" : "--num-iterations"); o.a.push_back(std::to_string(T)); }
  auto LOG = [&](const char *s) { return logs && o.F(s, 1, 3); };
  double dr = 1.0 / n; auto RATE = [&](double& rate) { bool w = g.flag(); if (w) { rate = g.pick(std::vector<double>{dr, 0.5, 0.2, 1}); o.a.push_back(g.flag() ? "-m" : "--ea-mutation-rate"); o.a.push_back(num(rate)); } return w; };
  auto hood = [&]() { int k = o.I(o.L("-N", "--neighborhood"), 0, g.below(4)), rad = 2; double rate = dr; bool w = false, anm = false; if (k == 1) { anm = o.F("--ea-allow-no-mutation"); w = RATE(rate); } if (k >= 2) rad = o.I("--radius", 2, g.irange(1, std::min(n, 3)), n < 2);
    return std::function<std::shared_ptr<hnco::neighborhood::Neighborhood>()>([=]() -> std::shared_ptr<hnco::neighborhood::Neighborhood> { using namespace hnco::neighborhood; switch (k) { case 0: return std::make_shared<SingleBitFlip>(n); case 1: { auto s = std::make_shared<StandardBitMutation>(n); s->set_allow_no_mutation(anm); if (w) s->set_mutation_rate(rate); return s; } case 2: return std::make_shared<HammingBall>(n, rad); default: return std::make_shared<HammingSphere>(n, rad); } }); };
  int pop = 10, sel = 1; auto POP = [&](bool s = true) { pop = o.I(o.L("-x", "--population-size"), 10, g.irange(2, 12)); if (s) sel = o.I(o.L("-y", "--selection-size"), 1, g.irange(1, pop - 1)); }; double lr = 1e-3; auto LR = [&]() { lr = o.D(o.L("-l", "--learning-rate"), 1e-3, g.pick(std::vector<double>{1e-3, 0.1, 0.5, 1})); };
  bool le = false, lp = false; int lc = 5; auto PV = [&]() { le = LOG("--pv-log-entropy"); lp = LOG("--pv-log-pv"); if (lp) lc = o.I("--pv-log-num-components", 5, g.irange(1, 8)); };
  r.parallel = (id >= 310 && id <= 400) || (id >= 500 && id <= 612) || (id >= 900 && id <= 1100); r.ends = id == 0 || id == 150 || id == 160;
  switch (id) {
  case 0: r.make = [=]() { return Inst{nullptr, std::make_shared<CompleteSearch>(n)}; }; break;
  case 10: r.make = [=]() { auto a = std::make_shared<RandomSearch>(n); a->set_num_iterations(T); return Inst{nullptr, a}; }; break;
  case 20: { auto h = hood(); bool inc = o.F("--incremental-evaluation"), lv = LOG("--rw-log-value"); r.make = [=]() { auto nb = h(); auto a = std::make_shared<RandomWalk>(n, nb.get()); a->set_num_iterations(T); a->set_incremental_evaluation(inc); if (lv) a->set_log_value(); return Inst{nb, a}; }; break; }
  case 100: { auto h = hood(); int pat = o.I("--rls-patience", 50, g.irange(0, 20)); bool inc = o.F("--incremental-evaluation"), st = o.F("--rls-strict"); r.make = [=]() { auto nb = h(); auto a = std::make_shared<RandomLocalSearch>(n, nb.get()); a->set_num_iterations(T); a->set_patience(pat); a->set_incremental_evaluation(inc); if (st) a->set_compare(std::greater<double>()); return Inst{nb, a}; }; break; }
  case 150: case 160: { int k = o.I("--neighborhood-iterator", 0, g.below(2)), rad = 1; if (k == 1) rad = o.I("--radius", 2, g.irange(1, std::min(n, 3)), n < 2); r.make = [=]() -> Inst { std::shared_ptr<hnco::neighborhood::NeighborhoodIterator> it; if (k == 0) it = std::make_shared<hnco::neighborhood::SingleBitFlipIterator>(n); else it = std::make_shared<hnco::neighborhood::HammingSphereIterator>(n, rad); if (id == 150) { auto a = std::make_shared<SteepestAscentHillClimbing>(n, it.get()); a->set_num_iterations(T); return Inst{it, a}; } auto a = std::make_shared<FirstAscentHillClimbing>(n, it.get()); a->set_num_iterations(T); return Inst{it, a}; }; break; }
  case 200: { auto h = hood(); int tr = o.I("--sa-num-transitions", 50, g.irange(1, 20)), ti = o.I("--sa-num-trials", 100, g.irange(1, 20)); double p = o.D("--sa-initial-acceptance-probability", 0.6, g.real(0.1, 0.9)), b = o.D("--sa-beta-ratio", 1.2, g.real(1, 2)); r.make = [=]() { auto nb = h(); auto a = std::make_shared<SimulatedAnnealing>(n, nb.get()); a->set_num_iterations(T); a->set_num_transitions(tr); a->set_num_trials(ti); a->set_initial_acceptance_probability(p); a->set_beta_ratio(b); return Inst{nb, a}; }; break; }
  case 300: { bool anm = o.F("--ea-allow-no-mutation"), inc = o.F("--incremental-evaluation"); double rate = dr; bool w = RATE(rate); r.make = [=]() { auto a = std::make_shared<OnePlusOneEa>(n); a->set_num_iterations(T); a->set_allow_no_mutation(anm); a->set_incremental_evaluation(inc); if (w) a->set_mutation_rate(rate); return Inst{nullptr, a}; }; break; }
  case 301: { double mx = o.D("--ea-mutation-rate-max", 0.5, g.real(0.4, 0.9)), us = o.D("--ea-update-strength", 1.01, g.real(1.01, 2)), sr = o.D("--ea-success-ratio", 4, g.real(0.5, 6)); bool anm = o.F("--ea-allow-no-mutation"), inc = o.F("--incremental-evaluation"), lm = LOG("--ea-log-mutation-rate"), wi = g.flag(), wm_ = g.flag(); double mi = g.real(dr / 10, dr), in = std::min(mx, std::max(dr, mi)); if (n < 3) throw pbt::Discard{}; if (wi) o.a = o.a + Args{"-m", num(in)}; if (wm_) o.a = o.a + Args{"--ea-mutation-rate-min", num(mi)};
    r.make = [=]() { auto a = std::make_shared<SelfAdjustingOnePlusOneEa>(n); a->set_num_iterations(T); a->set_mutation_rate_max(mx); a->set_success_ratio(sr); a->set_update_strength(us); a->set_allow_no_mutation(anm); a->set_incremental_evaluation(inc); a->set_log_mutation_rate(lm); if (wi) a->set_mutation_rate_init(in); if (wm_) a->set_mutation_rate_min(mi); return Inst{nullptr, a}; }; break; }
  case 310: case 320: { int mu = o.I("--ea-mu", 10, g.irange(1, 8)), la = o.I("--ea-lambda", 100, g.irange(mu, 12)); bool anm = o.F("--ea-allow-no-mutation"); double rate = dr; bool w = RATE(rate); r.make = [=]() -> Inst { if (id == 310) { auto a = std::make_shared<MuPlusLambdaEa>(n, mu, la); a->set_num_iterations(T); a->set_allow_no_mutation(anm); if (w) a->set_mutation_rate(rate); return Inst{nullptr, a}; } auto a = std::make_shared<MuCommaLambdaEa>(n, mu, la); a->set_num_iterations(T); a->set_allow_no_mutation(anm); if (w) a->set_mutation_rate(rate); return Inst{nullptr, a}; }; break; }
  case 330: { int la = o.I("--ea-lambda", 100, g.irange(2, 14)); bool anm = o.F("--ea-allow-no-mutation"), lm = LOG("--ea-log-mutation-rate"), w = g.flag(); if (n < 4) throw pbt::Discard{}; double in = g.real(2.0 / n, std::max(2.0 / n, 0.25)); if (w) o.a = o.a + Args{"--ea-mutation-rate", num(in)}; r.make = [=]() { auto a = std::make_shared<TwoRateOnePlusLambdaEa>(n, la); a->set_num_iterations(T); a->set_allow_no_mutation(anm); a->set_log_mutation_rate(lm); if (w) a->set_mutation_rate_init(in); return Inst{nullptr, a}; }; break; }
  case 340: { if (n < 3) throw pbt::Discard{}; POP(); LR(); int hw = o.I("--ea-it-initial-hamming-weight", 0, g.irange(0, n)), rp = o.I("--ea-it-replacement", 0, g.below(5)); double mx = o.D("--ea-mutation-rate-max", 0.5, g.real(0.4, 0.9)); bool anm = o.F("--ea-allow-no-mutation"), lcf = LOG("--ea-it-log-center-fitness"), lm = LOG("--ea-log-mutation-rate"), w = g.flag(), wi = g.flag(); double mi = g.real(dr / 10, dr), in = g.real(dr, mx); if (w) o.a = o.a + Args{"--ea-mutation-rate", num(in)}; if (wi) o.a = o.a + Args{"--ea-mutation-rate-min", num(mi)};
    r.make = [=]() { auto a = std::make_shared<InformationTheoreticEa>(n, pop); a->set_num_iterations(T); a->set_initial_hamming_weight(hw); a->set_learning_rate(lr); a->set_mutation_rate_max(mx); a->set_replacement(rp); a->set_selection_size(sel); a->set_allow_no_mutation(anm); a->set_log_center_fitness(lcf); a->set_log_mutation_rate(lm); if (w) a->set_mutation_rate_init(in); if (wi) a->set_mutation_rate_min(mi); return Inst{nullptr, a}; }; break; }
  case 400: { int mu = o.I("--ea-mu", 10, g.irange(3, 10)), ts = o.I("--ea-tournament-size", 2, g.irange(2, mu - 1)); double cp = o.D("--ea-crossover-probability", 0.5, g.pick(std::vector<double>{0, 0.3, 1})); bool anm = o.F("--ea-allow-no-mutation"); double rate = dr; bool w = RATE(rate); r.make = [=]() { auto a = std::make_shared<GeneticAlgorithm>(n, mu); a->set_num_iterations(T); a->set_crossover_probability(cp); a->set_tournament_size(ts); a->set_allow_no_mutation(anm); if (w) a->set_mutation_rate(rate); return Inst{nullptr, a}; }; break; }
  case 450: { int mu = o.I("--ea-mu", 10, g.irange(2, std::min(n, 8)), n < 10); double cb = o.D("--ea-crossover-bias", 0.5, g.real(0.1, 0.9)); double rate = dr; bool w = RATE(rate); r.make = [=]() { auto a = std::make_shared<OnePlusLambdaCommaLambdaGa>(n, mu); a->set_num_iterations(T); a->set_crossover_bias(cb); if (w) a->set_mutation_rate(rate); return Inst{nullptr, a}; }; break; }
  case 500: case 501: { POP(); LR(); PV(); r.make = [=]() -> Inst { if (id == 500) { auto a = std::make_shared<Pbil>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); return Inst{nullptr, a}; } auto a = std::make_shared<NpsPbil>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); return Inst{nullptr, a}; }; break; }
  case 600: { POP(); PV(); r.make = [=]() { auto a = std::make_shared<Umda>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); return Inst{nullptr, a}; }; break; }
  case 610: case 612: { POP(); PV(); int mode = o.I("--ram-ts-length-mode", 0, g.below(6)), len = o.I("--ram-ts-length", 10, g.irange(0, 10)), lo = o.I("--ram-ts-length-lower-bound", 0, g.irange(0, 4)), hi = o.I("--ram-ts-length-upper-bound", 20, g.irange(10, 20)), per = o.I("--ram-ts-length-increment-period", 10000, g.irange(1, 4)); double gp = o.D("--ram-ts-length-distribution-parameter", 0.1, g.real(0.05, 0.9)), cp = 0.1, ls = 0.5; if (id == 612) { cp = o.D("--ram-crossover-probability", 0.1, g.unit()); ls = o.D("--ram-latent-space-probability", 0.5, g.unit()); }
    r.make = [=]() { std::shared_ptr<RamUmda> a; if (id == 612) { auto b = std::make_shared<RamUmda2>(n, pop); b->set_crossover_probability(cp); b->set_latent_space_probability(ls); a = b; } else a = std::make_shared<RamUmda>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_ts_length(len); a->set_ts_length_distribution_parameter(gp); a->set_ts_length_increment_period(per); a->set_ts_length_lower_bound(lo); a->set_ts_length_mode(mode); a->set_ts_length_upper_bound(hi); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); return Inst{nullptr, a}; }; break; }
  case 700: { LR(); PV(); r.make = [=]() { auto a = std::make_shared<CompactGa>(n); a->set_num_iterations(T); a->set_learning_rate(lr); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); return Inst{nullptr, a}; }; break; }
  case 800: { LR(); PV(); bool st = o.F("--mmas-strict"); r.make = [=]() { auto a = std::make_shared<Mmas>(n); a->set_num_iterations(T); a->set_learning_rate(lr); a->set_log_entropy(le); a->set_log_num_components(lc); a->set_log_pv(lp); if (st) a->set_compare(std::greater<double>()); return Inst{nullptr, a}; }; break; }
  case 900: case 901: { POP(); LR(); auto B = [&](const char *s) { if (g.chance(1, 3)) return true; bool b = g.flag(); o.a.push_back(s); o.a.push_back(b ? "true" : "false"); return b; }; bool bm = B("--hea-bound-moment"), ro = B("--hea-randomize-bit-order"); int rp = o.I("--hea-reset-period", 0, g.irange(0, 3)); bool l1 = LOG("--hea-log-delta-norm"), l2 = LOG("--hea-log-herding-error"), l3 = LOG("--hea-log-target"), l4 = LOG("--hea-log-target-norm");
#define HM(H) auto a = std::make_shared<wm::Hea<wm::H>>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_bound_moment(bm); a->set_randomize_bit_order(ro); a->set_reset_period(rp); a->set_log_delta_norm(l1); a->set_log_herding_error(l2); a->set_log_target(l3); a->set_log_target_norm(l4); return Inst{nullptr, a};
    r.make = [=]() -> Inst { if (id == 900) { HM(FullMomentHerding) } else { HM(TriangularMomentHerding) } }; break; }
  case 1000: case 1001: { POP(); LR(); int st = o.I("--bm-num-gs-steps", 100, g.irange(1, 30)), cy = o.I("--bm-num-gs-cycles", 1, g.irange(1, 3)), sm = o.I("--bm-sampling-mode", 1, g.below(3)), rm = o.I("--bm-reset-mode", 1, g.below(3)); bool np = o.F("--bm-negative-positive-selection"), l1 = LOG("--bm-log-norm-1"), l2 = LOG("--bm-log-norm-infinite");
#define BM(H) auto a = std::make_shared<wm::BmPbil<wm::H>>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); a->set_learning_rate(lr); a->set_num_gs_steps(st); a->set_num_gs_cycles(cy); a->set_negative_positive_selection(np); a->set_sampling_mode(sm); a->set_reset_mode(rm); a->set_log_norm_1(l1); a->set_log_norm_infinite(l2); return Inst{nullptr, a};
    r.make = [=]() -> Inst { if (id == 1000) { BM(FullMomentGibbsSampler) } else { BM(TriangularMomentGibbsSampler) } }; break; }
  case 1100: POP(); r.make = [=]() { auto a = std::make_shared<Mimic>(n, pop); a->set_num_iterations(T); a->set_selection_size(sel); return Inst{nullptr, a}; }; break;
  case 1110: POP(false); r.budget_only = true; r.make = [=]() { auto a = std::make_shared<hnco::algorithm::fast_efficient_p3::Hboa>(n); a->set_population_size(pop); return Inst{nullptr, a}; }; break;
  case 1200: POP(false); r.budget_only = true; r.make = [=]() { auto a = std::make_shared<hnco::algorithm::fast_efficient_p3::Ltga>(n); a->set_population_size(pop); return Inst{nullptr, a}; }; break;
  case 1250: r.budget_only = true; r.make = [=]() { return Inst{nullptr, std::make_shared<hnco::algorithm::gomea::Gomea>(n)}; }; break;
  default: r.budget_only = true; r.make = [=]() { return Inst{nullptr, std::make_shared<hnco::algorithm::fast_efficient_p3::ParameterLessPopulationPyramid>(n)}; }; break;
  }
  r.a = o.a; return r;
}
}
#endif
