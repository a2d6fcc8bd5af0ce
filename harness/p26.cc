// P26: what Python sees through the bindings is what C++ sees.
#define VERIF_THIRD_PARTY
#include "algorithms.hh"
#include "objectives.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/collection/python-function.hh"
#include "hnco/maps/map.hh"
#include "hnco/iterator.hh"
#include "hnco/multiobjective/algorithms/all.hh"
#include "hnco/multiobjective/functions/all.hh"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <pybind11/complex.h>
#include <sys/wait.h>
#include <fcntl.h>
namespace py = pybind11; namespace fn = hnco::function; namespace ct = hnco::function::controller; namespace md = hnco::function::modifier; namespace mp = hnco::map; namespace rp = hnco::representation; namespace mo = hnco::multiobjective; namespace al = hnco::algorithm;
using hnco::random::Generator; namespace nb = hnco::neighborhood; using hnco::permutation_t; using obj::gen_obj; using obj::Obj; using alg::Recorder;
PYBIND11_MAKE_OPAQUE(hnco::bit_vector_t); PYBIND11_MAKE_OPAQUE(hnco::permutation_t); PYBIND11_MAKE_OPAQUE(hnco::algorithm::solution_t); PYBIND11_MAKE_OPAQUE(hnco::multiobjective::function::value_t);
extern "C" PyObject *PyInit_hnco();
static const char *PRE = R"(
import hnco
import hnco.function as F, hnco.function.controller as C, hnco.function.modifier as M, hnco.algorithm as A, hnco.map as P, hnco.neighborhood as N, hnco.representation as R, hnco.multiobjective.function as MF, hnco.multiobjective.algorithm as MA
import gc
G = hnco.random.Generator
BV = hnco.BitVector
Perm = hnco.Permutation
def dot(w, x):
    r = 0.0
    for a, b in zip(w, x): r += a * b
    return r
def evals(o, xs):
    r = []
    for x in xs:
        try: r.append(repr(float(o.evaluate(x))))
        except hnco.TargetReached: r.append('T')
        except hnco.LastEvaluation: r.append('L')
    return r
def runs(a, fs):
    try: a.maximize(fs); r = ''
    except hnco.LastEvaluation: r = 'L'
    except hnco.TargetReached: r = 'T'
    a.finalize()
    return r
class Fun(F.Function):
    def __init__(self, n, w, m):
        super().__init__()
        self.n = n; self.w = w; self.m = m; self.log = []; self.stop = -1
    def get_bv_size(self): return self.n
    def has_known_maximum(self): return self.m is not None
    def get_maximum(self): return self.m
    def evaluate(self, x):
        if len(self.log) == self.stop: raise ValueError('stop')
        self.log.append(tuple(x))
        return dot(self.w, x)
class Least(F.Function):
    def __init__(self, n):
        super().__init__()
        self.n = n
    def get_bv_size(self): return self.n
    def evaluate(self, x): return float(x[0])
class Uni(F.UniversalFunction):
    def __init__(self):
        super().__init__()
        self.got = None
    def evaluate(self, b, i, f, c, k, p):
        self.got = (list(b), list(i), list(f), list(c), list(k), [list(q) for q in p])
        return self.out
class MoFun(MF.Function):
    def __init__(self, n, w):
        super().__init__()
        self.n = n; self.w = w; self.log = []
    def get_bv_size(self): return self.n
    def get_output_size(self): return len(self.w)
    def evaluate(self, x, v):
        self.log.append(tuple(x))
        for k in range(len(self.w)): v[k] = dot(self.w[k], x)
class MoUni(MF.UniversalFunction):
    def __init__(self, m):
        super().__init__()
        self.m = m
    def get_output_size(self): return self.m
    def evaluate(self, b, i, f, c, k, p, v):
        self.got = (list(b), list(i), list(f), list(c), list(k), [list(q) for q in p])
        for j in range(self.m): v[j] = self.out[j]
class Iter(A.IterativeAlgorithm):
    def __init__(self, n, pts):
        super().__init__(n)
        self.pts = pts; self.inits = 0; self.k = 0
    def init(self):
        self.inits += 1; self.k = 0
        self.random_solution()
    def iterate(self):
        self.update_solution(self.pts[self.k % len(self.pts)]); self.k += 1
class Algo(A.Algorithm):
    def __init__(self, n, pts):
        super().__init__(n)
        self.pts = pts; self.got = []; self.done = 0
    def maximize(self, fs): self.got = [f.evaluate(x) for f in fs for x in self.pts]
    def finalize(self): self.done += 1
)";
static void python_mode() { // PythonFunction starts the interpreter itself: path, name, then bit vectors on standard input
  PyImport_AppendInittab("hnco", PyInit_hnco); int r = 0;
  try { auto *q = new fn::PythonFunction(getenv("P26_PATH"), getenv("P26_NAME")); auto& f = *q; printf("%d %d\n", f.get_bv_size(), int(f.has_known_maximum())); if (f.has_known_maximum()) printf("%a\n", f.get_maximum()); char b[4096]; while (scanf("%4095s", b) == 1) { BV x; for (char *c = b; *c; c++) x.push_back(*c == '1'); printf("%a\n", f.evaluate(x)); } fflush(stdout); delete q; }
  catch (std::exception& e) { printf("exception\n"); fflush(stdout); r = 3; }
  _exit(r);
}
static py::dict *base;
static struct Boot { Boot() { if (getenv("P26_PATH")) python_mode(); PyImport_AppendInittab("hnco", PyInit_hnco); py::initialize_interpreter(false); base = new py::dict(py::module_::import("__main__").attr("__dict__")); py::exec(PRE, *base); } } boot;
struct Py { py::dict d; Py(): d(base->attr("copy")()) {} void run(const std::string& s) { py::exec(s, d); } py::object eval(const std::string& s) { return py::eval(s, d); } template<class T> T get(const std::string& s) { const py::object o = eval(s); return o.cast<T>(); } std::string str(const std::string& s) { return eval("str(" + s + ")").cast<std::string>(); }
  template<class T> void set(const char *n, T v) { d[n] = py::cast(v); } template<class T> void ref(const char *n, T *v) { d[n] = py::cast(v, py::return_value_policy::reference); } void bvs(const char *n, const std::vector<BV>& v) { py::list l; for (auto& x : v) l.append(py::cast(x)); d[n] = l; } };
static std::string num(double v) { return py::repr(py::float_(v)).cast<std::string>(); }
static std::string S(int v) { return std::to_string(v); }
static std::string bits(const BV& x) { std::string s; for (auto b : x) s += b ? '1' : '0'; return s; }
static std::string lst(const std::vector<int>& v) { std::string s = "["; for (int i : v) s += S(i) + ","; return s + "]"; }
static std::string lst(const std::vector<double>& v) { std::string s = "["; for (double i : v) s += num(i) + ","; return s + "]"; }
static double gen_weight(Gen& g) { return g.flag() ? double(g.range(-5, 5)) : g.range(-50, 50) / 7.0; }
template<class T> static std::string shown(const T& o) { std::ostringstream s; o.display(s); return s.str(); }
struct Quiet { std::ostringstream o; std::streambuf *old; Quiet(): old(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
typedef std::shared_ptr<fn::Function> FP;
struct PF { std::string name, py; FP f; int n = 0; std::function<void(const std::string&)> save, load; bool loadable = false, savable = false; };
template<class T> static void file_ops(PF& p, std::shared_ptr<T> t, bool s = true) { p.f = t; p.loadable = true; p.load = [t](const std::string& q) { t->load(q); }; if constexpr (!std::is_same_v<T, fn::Qubo>) if (s) { p.savable = true; p.save = [t](const std::string& q) { t->save(q); }; } }
// A function made in Python by the statement(s) py, and its twin
static PF gen_fun(Gen& g, bool plain = false) {
  PF p; int n = g.small(2, 30); static const char *one[] = {"OneMax", "LeadingOnes", "Ridge", "Needle", "Plateau"}; unsigned s = g.seed32(); p.py = "o = F."; Generator::set_seed(s); auto A1 = [&](const std::string& c) { p.name = c; p.py += c; };
  switch (g.below(plain ? 15 : 27)) {
#define ONE(K, T) case K: A1(#T); p.py += "(" + S(n) + ")"; p.f = std::make_shared<fn::T>(n); break;
  ONE(0, OneMax) ONE(1, LeadingOnes) ONE(2, Ridge) ONE(3, Needle) ONE(4, Plateau)
  case 5: n = 1 << g.irange(1, 5); A1("Hiff"); p.py += "(" + S(n) + ")"; p.f = std::make_shared<fn::Hiff>(n); break;
#define TWO(K, T, X) case K: { int t = X; A1(#T); p.py += "(" + S(n) + ", " + S(t) + ")"; p.f = std::make_shared<fn::T>(n, t); break; }
  TWO(6, Jump, g.irange(1, n - 1)) TWO(7, DeceptiveJump, g.irange(1, n - 1)) TWO(8, FourPeaks, g.irange(0, n / 2 - 1)) TWO(9, SixPeaks, g.irange(0, n / 2 - 1))
  case 10: { int k = g.irange(2, 6), t = g.irange(1, 5); n = k * t; A1("Trap"); p.py += "(" + S(n) + ", " + S(t) + ")"; p.f = std::make_shared<fn::Trap>(n, t); break; }
  case 11: { int k = g.irange(2, 4); n = k * g.irange(1, 6); A1("LongPath"); p.py += "(" + S(n) + ", " + S(k) + ")"; p.f = std::make_shared<fn::LongPath>(n, k); break; }
  case 12: { bool m = g.flag(); A1("Labs"); p.py += "(" + S(n) + ")"; auto f = std::make_shared<fn::Labs>(n); if (m || g.flag()) { f->set_merit_factor_flag(m); p.py += std::string("; o.set_merit_factor_flag(") + (m ? "True)" : "False)"); } p.f = f; break; }
  case 13: n = 9 * g.irange(1, 4); A1("SummationCancellation"); p.py += "(" + S(n) + ")"; p.f = std::make_shared<fn::SummationCancellation>(n); break;
  case 14: n = 9 * g.irange(1, 4); A1("SinusSummationCancellation"); p.py += "(" + S(n) + ")"; p.f = std::make_shared<fn::SinusSummationCancellation>(n); break;
#define RND(K, T, CALL, TEXT) case K: { A1(#T); auto f = std::make_shared<fn::T>(); f->CALL; file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o." + TEXT; break; }
  RND(15, LinearFunction, random(n), "random(" + S(n) + ")") RND(16, EqualProducts, random(n), "random(" + S(n) + ")") RND(17, WalshExpansion1, random(n), "random(" + S(n) + ")") RND(18, WalshExpansion2, random(n), "random(" + S(n) + ")")
  case 19: { int u = g.irange(1, 1000); A1("Partition"); auto f = std::make_shared<fn::Partition>(); f->random(n, u); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o.random(" + S(n) + ", " + S(u) + ")"; break; }
  case 20: { int k = g.irange(1, std::min(n - 1, 5)); A1("NkLandscape"); auto f = std::make_shared<fn::NkLandscape>(); f->random(n, k); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o.random(" + S(n) + ", " + S(k) + ")"; break; }
  case 21: { int k = g.irange(1, 20); A1("WalshExpansion"); auto f = std::make_shared<fn::WalshExpansion>(); f->random(n, k); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o.random(" + S(n) + ", " + S(k) + ")"; break; }
  case 22: { int k = g.irange(1, std::min(n, 4)), c = g.irange(1, 30); A1("MaxSat"); auto f = std::make_shared<fn::MaxSat>(); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); "; if (g.flag()) { f->random(n, k, c); p.py += "o.random(" + S(n) + ", " + S(k) + ", " + S(c) + ")"; } else { BV x = g.bits(n); f->random(x, k, c); p.py += "o.random(BV([int(c) for c in '" + bits(x) + "']), " + S(k) + ", " + S(c) + ")"; } break; }
  case 23: { bool per = g.flag(); A1("NearestNeighborIsingModel1"); auto f = std::make_shared<fn::NearestNeighborIsingModel1>(); f->random(n); f->set_periodic_boundary_conditions(per); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o.random(" + S(n) + "); o.set_periodic_boundary_conditions(" + (per ? "True)" : "False)"); break; }
  case 24: { bool per = g.flag(); int r = g.irange(1, 5), c = g.irange(1, 5); n = r * c; A1("NearestNeighborIsingModel2"); auto f = std::make_shared<fn::NearestNeighborIsingModel2>(); f->random(r, c); f->set_periodic_boundary_conditions(per); file_ops(p, f); p.py += "(); G.set_seed(" + std::to_string(s) + "); o.random(" + S(r) + ", " + S(c) + "); o.set_periodic_boundary_conditions(" + (per ? "True)" : "False)"); break; }
  case 25: { int m = g.irange(1, 12); n = std::max(n, 3); std::ostringstream o; o << "p cnf " << n << " " << m << "\n"; for (int i = 0; i < m; i++) { auto v = gen_subset(g, n, 3); for (int j : v) o << (g.flag() ? "-" : "") << j + 1 << " "; o << "0\n"; } spit(tmpfile_path("nae"), o.str()); A1("MaxNae3Sat"); auto f = std::make_shared<fn::MaxNae3Sat>(); f->load(tmpfile_path("nae")); p.f = f; p.py += "(); o.load('" + tmpfile_path("nae") + "')"; break; }
  default: { int m = g.irange(0, 10); std::ostringstream o; std::set<std::pair<int, int>> di, od; for (int i = 0; i < m; i++) { int a = g.below(n), b = g.below(n); if (a == b) di.insert({a, b}); else od.insert({std::min(a, b), std::max(a, b)}); } o << "p qubo 0 " << n << " " << di.size() << " " << od.size() << "\n"; for (auto& e : di) o << e.first << " " << e.second << " " << (g.flag() ? 1 : -1) * g.irange(1, 9) << "\n"; for (auto& e : od) o << e.first << " " << e.second << " " << (g.flag() ? 1 : -1) * g.irange(1, 9) << "\n"; spit(tmpfile_path("qubo"), o.str()); A1("Qubo"); auto f = std::make_shared<fn::Qubo>(); f->load(tmpfile_path("qubo")); p.f = f; p.py += "(); o.load('" + tmpfile_path("qubo") + "')"; }
  }
  p.n = p.f->get_bv_size(); return p;
}
static std::string outcome(fn::Function& f, const BV& x) { try { return num(f.evaluate(x)); } catch (hnco::exception::TargetReached&) { return "T"; } catch (hnco::exception::LastEvaluation&) { return "L"; } }
static void same_function(Py& e, const std::string& o, fn::Function& f, const std::vector<BV>& xs) {
  REQUIRE(e.get<int>(o + ".get_bv_size()") == f.get_bv_size(), "size", e.str(o + ".get_bv_size()") << " instead of " << f.get_bv_size()); REQUIRE(e.get<bool>(o + ".has_known_maximum()") == f.has_known_maximum(), "known", e.str(o)); if (f.has_known_maximum()) REQUIRE(e.get<double>(o + ".get_maximum()") == f.get_maximum(), "maximum", e.str(o + ".get_maximum()") << " instead of " << f.get_maximum());
  e.bvs("xs", xs); auto r = e.get<std::vector<std::string>>("evals(" + o + ", xs)"); for (size_t i = 0; i < xs.size(); i++) { std::string w = outcome(f, xs[i]); REQUIRE(r[i] == w, "value", r[i] << " instead of " << w << " at " << bits(xs[i])); }
}
static std::vector<BV> points(Gen& g, int n, int k) { std::vector<BV> v; for (int i = 0; i < k; i++) { if (i && g.chance(1, 5)) v.push_back(v[g.below(i)]); else v.push_back(g.bits(n)); } return v; }
PBT(functions, 1500, 20000) { // functions made in Python
  Py e; PF p = gen_fun(g); g.note() << p.py; g.nontrivial(p.n > 2); g.label(p.name); e.run(p.py); auto xs = points(g, p.n, 8); same_function(e, "o", *p.f, xs); REQUIRE(e.str("o") == shown(*p.f), "display", e.str("o"));
  { Quiet q; e.bvs("xs", {xs[0]}); e.run("hnco.bv_describe(xs[0], o)"); std::ostringstream o; p.f->describe(xs[0], o); REQUIRE(q.o.str() == o.str(), "describe", q.o.str()); }
  if (p.savable) { std::string a = tmpfile_path("a"), b = tmpfile_path("b"); e.run("o.save('" + a + "')"); p.save(b); REQUIRE(slurp_file(a) == slurp_file(b), "save", "files differ"); e.run("q = F." + p.name + "(); q.load('" + b + "')"); p.load(a); same_function(e, "q", *p.f, xs); unlink(a.c_str()); unlink(b.c_str()); std::string bad = tmpfile_path("none/none"); e.run("r = False\ntry: o.save('" + bad + "')\nexcept Exception: r = True\ntry: q.load('" + bad + "'); r = False\nexcept Exception: pass\n"); REQUIRE(e.get<bool>("r"), "missing-file", "no exception for a missing folder"); }
}
struct Made { std::string py; std::shared_ptr<mp::Map> m; std::vector<std::shared_ptr<mp::Map>> keep; std::function<void(const std::string&)> save, load; std::string cls; };
template<class T> static void map_files(Made& m, std::shared_ptr<T> t, const char *c) { m.m = t; m.cls = c; m.save = [t](const std::string& q) { t->save(q); }; m.load = [t](const std::string& q) { t->load(q); }; }
static Made gen_map(Gen& g, const std::string& v, int out = 0, int depth = 0) {
  Made r; int n = out ? out : g.irange(2, 20); unsigned s = g.seed32(); Generator::set_seed(s); std::string sd = "; G.set_seed(" + std::to_string(s) + "); " + v + ".random(";
  switch (g.below(depth ? 5 : 8)) {
  case 0: { auto m = std::make_shared<mp::Translation>(); m->random(n); map_files(r, m, "Translation"); r.py = v + " = P.Translation()" + sd + S(n) + ")"; break; }
  case 1: { auto m = std::make_shared<mp::Permutation>(); m->random(n); map_files(r, m, "Permutation"); r.py = v + " = P.Permutation()" + sd + S(n) + ")"; break; }
  case 2: { bool su = g.flag(); int in = su ? n + g.irange(0, 6) : g.irange(1, 20); auto m = std::make_shared<mp::LinearMap>(); m->random(n, in, su); map_files(r, m, "LinearMap"); r.py = v + " = P.LinearMap()" + sd + S(n) + ", " + S(in) + ", " + (su ? "True)" : "False)"); break; }
  case 3: { bool su = g.flag(); int in = su ? n + g.irange(0, 6) : g.irange(1, 20); auto m = std::make_shared<mp::AffineMap>(); m->random(n, in, su); map_files(r, m, "AffineMap"); r.py = v + " = P.AffineMap()" + sd + S(n) + ", " + S(in) + ", " + (su ? "True)" : "False)"); break; }
  case 4: { if (n < 2) throw pbt::Discard{}; int t = g.irange(0, 10), mode = g.below(6); static const char *names[] = {"Unconstrained", "CommutingTransvections", "UniqueSource", "UniqueDestination", "DisjointTransvections", "NonCommutingTransvections"}; if (mode == 5) n = std::max(n, 2); auto m = std::make_shared<mp::TsAffineMap>(); m->random(n, t, mode); map_files(r, m, "TsAffineMap"); r.py = v + " = P.TsAffineMap()" + sd + S(n) + ", " + S(t) + ", " + (g.flag() ? std::string("P.TsAffineMap.SamplingMode.") + names[mode] + ")" : S(mode) + ")"); break; }
  case 5: { int in = g.irange(1, n); auto pos = gen_subset(g, n, in); r.m = std::make_shared<mp::Injection>(pos, n); r.py = v + " = P.Injection(Perm(" + lst(pos) + "), " + S(n) + ")"; break; }
  case 6: { int in = n + g.irange(0, 6); auto pos = gen_subset(g, in, n); r.m = std::make_shared<mp::Projection>(pos, in); r.py = v + " = P.Projection(Perm(" + lst(pos) + "), " + S(in) + ")"; break; }
  default: { Made a = gen_map(g, v + "a", n, 1), b = gen_map(g, v + "b", a.m->get_input_size(), 1); if (a.m->get_input_size() != b.m->get_output_size()) throw pbt::Discard{}; r.keep = {a.m, b.m}; r.m = std::make_shared<mp::MapComposition>(a.m.get(), b.m.get()); r.py = a.py + "\n" + b.py + "\n" + v + " = P.MapComposition(" + v + "a, " + v + "b)"; }
  }
  if (r.m->get_output_size() != n && out) throw pbt::Discard{}; return r;
}
PBT(maps, 1000, 12000) { // coordinate changes
  Py e; Made m = gen_map(g, "m"); g.note() << m.py; e.run(m.py); int a = m.m->get_input_size(), b = m.m->get_output_size(); g.nontrivial(a > 1 && b > 1); REQUIRE(e.get<int>("m.get_input_size()") == a && e.get<int>("m.get_output_size()") == b, "sizes", a << " " << b); REQUIRE(e.get<bool>("m.is_surjective()") == m.m->is_surjective(), "surjective", ""); REQUIRE(e.str("m") == shown(*m.m), "display", e.str("m"));
  auto test = [&](const std::string& v) { for (int t = 0; t < 4; t++) { BV x = g.bits(a), z = g.bits(b), y = z; m.m->map(x, y); e.bvs("xs", {x, z}); e.run(v + ".map(xs[0], xs[1])"); BV got = e.get<BV>("xs[1]"), in = e.get<BV>("xs[0]"); REQUIRE(got == y, "image", bits(got) << " instead of " << bits(y)); REQUIRE(in == x, "argument", "changed"); } }; test("m");
  if (m.save) { std::string p = tmpfile_path("a"), q = tmpfile_path("b"); e.run("m.save('" + p + "')"); m.save(q); REQUIRE(slurp_file(p) == slurp_file(q), "save", "files differ"); e.run("k = P." + m.cls + "(); k.load('" + q + "')"); test("k"); m.load(p); test("m"); unlink(p.c_str()); unlink(q.c_str()); }
}
PBT(wrappers, 1500, 20000) { // controllers and modifiers, calls one by one
  Py e; PF p = gen_fun(g, true); int k = g.irange(1, 4); bool inl = g.chance(1, 3); std::string code = p.py, last = "o"; std::vector<FP> st{p.f}; std::vector<Made> keep; std::vector<std::string> kind{""}, var{"o"}; std::vector<std::shared_ptr<hnco::neighborhood::Neighborhood>> hoods;
  for (int i = 0; i < k; i++) { fn::Function *f = st.back().get(); int n = f->get_bv_size(); std::string v = "w" + S(i), c; switch (g.below(11)) {
    case 0: c = "C.CallCounter(@)"; st.push_back(std::make_shared<ct::CallCounter>(f)); kind.push_back("calls"); break;
    case 1: { int b = g.irange(1, 15); c = "C.OnBudgetFunction(@, " + S(b) + ")"; st.push_back(std::make_shared<ct::OnBudgetFunction>(f, b)); kind.push_back("calls"); break; }
    case 2: { double t = g.range(-5, 30); c = "C.StopOnTarget(@, " + num(t) + ")"; st.push_back(std::make_shared<ct::StopOnTarget>(f, t)); kind.push_back("target"); break; }
    case 3: if (!f->has_known_maximum()) { continue; } c = "C.StopOnMaximum(@)"; st.push_back(std::make_shared<ct::StopOnMaximum>(f)); kind.push_back("target"); break;
    case 4: c = "C.ProgressTracker(@)"; st.push_back(std::make_shared<ct::ProgressTracker>(f)); kind.push_back("calls"); break;
    case 5: c = "C.Cache(@)"; st.push_back(std::make_shared<ct::Cache>(f)); kind.push_back("cache"); break;
    case 6: c = "M.OppositeFunction(@)"; st.push_back(std::make_shared<md::OppositeFunction>(f)); kind.push_back(""); break;
    case 7: { static const std::vector<std::string> ex{"2*x+1", "-x", "x*x", "abs(x-3)"}; std::string t = g.pick(ex); c = "M.ParsedModifier(@, '" + t + "')"; st.push_back(std::make_shared<md::ParsedModifier>(f, t)); kind.push_back(""); break; }
    case 8: { Made m = gen_map(g, "m" + S(i), n, 1); if (m.m->get_output_size() != n) continue; code += "\n" + m.py; c = "M.FunctionMapComposition(@, m" + S(i) + ")"; keep.push_back(m); st.push_back(std::make_shared<md::FunctionMapComposition>(f, m.m.get())); kind.push_back(""); break; }
    case 9: { double sd = g.pick(std::vector<double>{0.01, 0.5, 3}); c = "M.AdditiveGaussianNoise(@, " + num(sd) + ")"; st.push_back(std::make_shared<md::AdditiveGaussianNoise>(f, sd)); kind.push_back(""); break; }
    default: { auto h = std::make_shared<hnco::neighborhood::SingleBitFlip>(n); hoods.push_back(h); code += "\nh" + S(i) + " = N.SingleBitFlip(" + S(n) + ")"; c = "M.PriorNoise(@, h" + S(i) + ")"; st.push_back(std::make_shared<md::PriorNoise>(f, h.get())); kind.push_back(""); } }
    size_t at = c.find('@'); c.replace(at, 1, last); code += "\n" + v + " = " + c; last = v; var.push_back(v); g.label(c.substr(0, c.find('('))); }
  if (inl && g.flag()) for (size_t i = 0; i + 1 < var.size(); i++) code += "\ndel " + var[i]; bool gone = inl && code.find("\ndel ") != std::string::npos; if (gone) code += "\ngc.collect(); junk = [BV(k) for k in range(1, 60)]"; // the last wrapper alone keeps the others alive
  g.note() << code; g.nontrivial(st.size() > 1); e.run(code); int n = st.back()->get_bv_size(); auto xs = points(g, n, g.irange(1, 25)); unsigned s = g.seed32(); REQUIRE(e.get<int>(last + ".get_bv_size()") == n, "size", ""); REQUIRE(e.get<bool>(last + ".has_known_maximum()") == st.back()->has_known_maximum(), "known", ""); if (st.back()->has_known_maximum()) REQUIRE(e.get<double>(last + ".get_maximum()") == st.back()->get_maximum(), "maximum", "");
  e.bvs("xs", xs); Generator::set_seed(s); auto r = e.get<std::vector<std::string>>("evals(" + last + ", xs)"); Generator::set_seed(s); for (size_t i = 0; i < xs.size(); i++) { std::string w = outcome(*st.back(), xs[i]); REQUIRE(r[i] == w, "value", "call " << i << ": " << r[i] << " instead of " << w); }
  for (size_t i = gone ? st.size() - 1 : 1; i < st.size(); i++) { if (kind[i] == "calls") { int w = static_cast<ct::CallCounter *>(st[i].get())->get_num_calls(); REQUIRE(e.get<int>(var[i] + ".get_num_calls()") == w, "calls", e.str(var[i] + ".get_num_calls()") << " instead of " << w); } if (kind[i] == "cache" && xs.size()) { double w = static_cast<ct::Cache *>(st[i].get())->get_lookup_ratio(), v = e.get<double>(var[i] + ".get_lookup_ratio()"); REQUIRE(v == w || (v != v && w != w), "ratio", v << " instead of " << w); }
    if (kind[i] == "target" && std::count(r.begin(), r.end(), "T")) { auto t = static_cast<ct::StopOnTarget *>(st[i].get())->get_trigger(); if (t.first.size()) { REQUIRE(e.get<BV>(var[i] + ".get_trigger().first") == t.first && e.get<double>(var[i] + ".get_trigger().second") == t.second, "trigger", ""); std::ostringstream o; o << bits(t.first) << " -> " << t.second; REQUIRE(e.str(var[i] + ".get_trigger()") == o.str(), "trigger-text", e.str(var[i] + ".get_trigger()") << " instead of " << o.str()); } } }
}
PBT(neighborhoods, 800, 10000) { // moves and enumerations
  Py e; int n = g.irange(1, 20), r = g.irange(1, n), kind = g.below(6); unsigned s = g.seed32(); BV o = g.bits(n); std::string c; g.nontrivial(n > 1);
  if (kind < 4) { std::unique_ptr<hnco::neighborhood::Neighborhood> h; double p = g.pick(std::vector<double>{1.0 / n, 0.3}); switch (kind) { case 0: h.reset(new hnco::neighborhood::SingleBitFlip(n)); c = "N.SingleBitFlip(" + S(n) + ")"; break; case 1: h.reset(new hnco::neighborhood::HammingBall(n, r)); c = "N.HammingBall(" + S(n) + ", " + S(r) + ")"; break; case 2: h.reset(new hnco::neighborhood::HammingSphere(n, r)); c = "N.HammingSphere(" + S(n) + ", " + S(r) + ")"; break; default: h.reset(new hnco::neighborhood::StandardBitMutation(n, p)); c = "N.StandardBitMutation(" + S(n) + ", " + num(p) + ")"; }
    g.note() << c; g.label(c.substr(0, c.find('('))); e.bvs("xs", {o, g.bits(n)}); e.run("h = " + c + "\nh.set_origin(xs[0])\nG.set_seed(" + std::to_string(s) + ")"); h->set_origin(o); int steps = g.irange(1, 12); std::vector<int> ops; for (int i = 0; i < steps; i++) ops.push_back(g.below(4)); g.note() << " operations " << lst(ops); std::vector<BV> seen; // all in Python first: one stream of random numbers
    e.run("log = []\ny = BV(xs[1])\nz = BV(" + S(n) + ")\nfor q in " + lst(ops) + ":\n  if q == 0: h.mutate(y)\n  elif q == 1: h.map(xs[0], z)\n  else:\n    h.propose(); log.append((tuple(h.get_origin()), tuple(h.get_candidate()), tuple(h.get_flipped_bits())))\n    if q == 2: h.keep()\n    else: h.forget()\n  log.append((tuple(h.get_origin()), tuple(y), tuple(z)))"); std::string got = e.str("log"); Py w; w.run("log = []"); BV y = e.get<BV>("xs[1]"), z(n); Generator::set_seed(s); py::list L; auto tup = [](const auto& v) { py::tuple t(v.size()); for (size_t i = 0; i < v.size(); i++) t[i] = int(v[i]); return t; };
    for (int q : ops) { if (q == 0) h->mutate(y); else if (q == 1) h->map(o, z); else { h->propose(); L.append(py::make_tuple(tup(h->get_origin()), tup(h->get_candidate()), tup(h->get_flipped_bits()))); if (q == 2) h->keep(); else h->forget(); } L.append(py::make_tuple(tup(h->get_origin()), tup(y), tup(z))); } std::string want = py::str(L).cast<std::string>(); REQUIRE(got == want, "moves", got << " instead of " << want); return; }
  std::unique_ptr<hnco::Iterator> it; n = std::min(n, 9); r = std::min(r, n); o.resize(n); e.bvs("xs", {o}); int what = g.below(3); if (what == 0) { it.reset(new hnco::HypercubeIterator(n)); c = "hnco.HypercubeIterator(" + S(n) + ")"; e.run("i = " + c); } else { std::unique_ptr<hnco::neighborhood::NeighborhoodIterator> t; if (what == 1) { t.reset(new hnco::neighborhood::SingleBitFlipIterator(n)); c = "N.SingleBitFlipIterator(" + S(n) + ")"; } else { t.reset(new hnco::neighborhood::HammingSphereIterator(n, r)); c = "N.HammingSphereIterator(" + S(n) + ", " + S(r) + ")"; } t->set_origin(o); it.reset(t.release()); e.run("i = " + c + "\ni.set_origin(xs[0])"); }
  g.note() << c; g.label(c.substr(0, c.find('('))); for (int pass = g.irange(1, 2); pass > 0; pass--) { bool loop = g.flag(); std::vector<std::string> want; it->init(); while (it->has_next()) want.push_back(bits(it->next())); auto got = e.get<std::vector<std::string>>(loop ? "[''.join(map(str, x)) for x in type('I', (), {'__iter__': lambda s: s, '__init__': lambda s: setattr(s, 'k', i.__iter__()), '__next__': lambda s: s.k.__next__()})()]" : "(lambda: (i.init(), [''.join(map(str, i.next())) for _ in iter(i.has_next, False)])[1])()"); REQUIRE(got == want, "enumeration", got.size() << " elements instead of " << want.size()); }
  if (what == 0) { auto got = e.get<std::vector<std::string>>("[''.join(map(str, x)) for x in " + c + "]"); std::vector<std::string> want; it->init(); while (it->has_next()) want.push_back(bits(it->next())); REQUIRE(got == want, "for-loop", got.size() << " elements instead of " << want.size()); }
}

static std::string lit(int v) { return S(v); } static std::string lit(bool v) { return v ? "True" : "False"; } static std::string lit(double v) { return num(v); }
struct PA { std::string name, py; std::shared_ptr<al::Algorithm> a; std::shared_ptr<nb::Neighborhood> h; bool native = true; };
#define MK(T, ...) auto a = std::make_shared<T>(__VA_ARGS__); p.a = a
#define SET(F, V) do { auto v_ = V; a->F(v_); p.py += "\na." #F "(" + lit(v_) + ")"; } while (0)
#define MAYBE(F, V) do { auto w_ = V; if (g.flag()) SET(F, w_); } while (0)
static PA gen_alg(Gen& g, int n, int T, bool generic = false) { // the statements making a, and the same object
  PA p; auto head = [&](const std::string& c, const std::string& args) { p.name = c; p.py = "a = A." + c + "(" + S(n) + args + ")"; }; int pop = g.irange(2, 14), sel = g.irange(1, pop - 1), mu = g.irange(1, 8), lambda = g.irange(mu, 12); double rate = g.pick(std::vector<double>{1.0 / n, 0.5, 0.2, 1.0}), lr = g.pick(std::vector<double>{0.001, 0.1, 1.0}); bool anm = g.flag();
  auto hood = [&]() { switch (g.below(4)) { case 0: p.h = std::make_shared<nb::SingleBitFlip>(n); return "N.SingleBitFlip(" + S(n) + ")"; case 1: p.h = std::make_shared<nb::StandardBitMutation>(n, rate); return "N.StandardBitMutation(" + S(n) + ", " + num(rate) + ")"; case 2: { int r = g.irange(1, n); p.h = std::make_shared<nb::HammingBall>(n, r); return "N.HammingBall(" + S(n) + ", " + S(r) + ")"; } default: { int r = g.irange(1, n); p.h = std::make_shared<nb::HammingSphere>(n, r); return "N.HammingSphere(" + S(n) + ", " + S(r) + ")"; } } };
  int k = g.below(generic ? 21 : 26);
  switch (k) {
  case 0: { if (n > 8) throw pbt::Discard{}; head("CompleteSearch", ""); MK(al::CompleteSearch, n); break; }
  case 1: { head("RandomSearch", ""); MK(al::RandomSearch, n); SET(set_num_iterations, T); break; }
  case 2: { head("RandomWalk", ", " + hood()); MK(al::RandomWalk, n, p.h.get()); SET(set_num_iterations, T); break; }
  case 3: { head("RandomLocalSearch", ", " + hood()); MK(al::RandomLocalSearch, n, p.h.get()); SET(set_num_iterations, T); MAYBE(set_patience, g.irange(0, 20)); break; }
  case 4: { head("SimulatedAnnealing", ", " + hood()); MK(al::SimulatedAnnealing, n, p.h.get()); SET(set_num_iterations, T); SET(set_num_trials, g.irange(1, 12)); MAYBE(set_num_transitions, g.irange(1, 10)); MAYBE(set_initial_acceptance_probability, g.real(0.05, 0.95)); MAYBE(set_beta_ratio, g.real(1, 3)); break; }
  case 5: { head("OnePlusOneEa", ""); MK(al::OnePlusOneEa, n); SET(set_num_iterations, T); MAYBE(set_mutation_rate, rate); MAYBE(set_allow_no_mutation, anm); MAYBE(set_incremental_evaluation, g.flag()); break; }
  case 6: { head("SelfAdjustingOnePlusOneEa", ""); MK(al::SelfAdjustingOnePlusOneEa, n); SET(set_num_iterations, T); double lo = g.real(0.001, 0.05), hi = g.real(0.3, 1); SET(set_mutation_rate_min, lo); SET(set_mutation_rate_init, g.real(0.06, 0.29)); SET(set_mutation_rate_max, hi); MAYBE(set_update_strength, g.real(1.01, 2)); MAYBE(set_success_ratio, g.real(0.5, 6)); MAYBE(set_allow_no_mutation, anm); MAYBE(set_incremental_evaluation, g.flag()); break; }
  case 7: { lambda = g.irange(1, 12); head("MuPlusLambdaEa", ", " + S(mu) + ", " + S(lambda)); MK(al::MuPlusLambdaEa, n, mu, lambda); SET(set_num_iterations, T); MAYBE(set_mutation_rate, rate); MAYBE(set_allow_no_mutation, anm); break; }
  case 8: { head("MuCommaLambdaEa", ", " + S(mu) + ", " + S(lambda)); MK(al::MuCommaLambdaEa, n, mu, lambda); SET(set_num_iterations, T); MAYBE(set_mutation_rate, rate); MAYBE(set_allow_no_mutation, anm); break; }
  case 9: { head("TwoRateOnePlusLambdaEa", ", " + S(pop)); MK(al::TwoRateOnePlusLambdaEa, n, pop); SET(set_num_iterations, T); MAYBE(set_mutation_rate_init, g.real(0.01, 0.2)); MAYBE(set_allow_no_mutation, anm); break; }
  case 10: { head("InformationTheoreticEa", ", " + S(pop)); MK(al::InformationTheoreticEa, n, pop); SET(set_num_iterations, T); SET(set_selection_size, sel); SET(set_mutation_rate_min, g.real(0.001, 0.05)); SET(set_mutation_rate_init, g.real(0.06, 0.29)); SET(set_mutation_rate_max, g.real(0.3, 0.5)); MAYBE(set_learning_rate, lr); MAYBE(set_initial_hamming_weight, g.irange(0, n)); MAYBE(set_replacement, int(g.below(5))); MAYBE(set_allow_no_mutation, anm); break; }
  case 11: { mu = g.irange(12, 20); head("GeneticAlgorithm", ", " + S(mu)); MK(al::GeneticAlgorithm, n, mu); SET(set_num_iterations, T); MAYBE(set_mutation_rate, rate); MAYBE(set_crossover_probability, g.pick(std::vector<double>{0, 0.5, 1})); MAYBE(set_tournament_size, g.irange(2, mu - 1)); MAYBE(set_allow_no_mutation, anm); break; }
  case 12: { lambda = g.irange(2, std::max(2, std::min(n, 8))); if (lambda > n) throw pbt::Discard{}; head("OnePlusLambdaCommaLambdaGa", ", " + S(lambda)); MK(al::OnePlusLambdaCommaLambdaGa, n, lambda); SET(set_num_iterations, T); MAYBE(set_mutation_rate, g.unit()); MAYBE(set_crossover_bias, g.real(0.05, 0.95)); break; }
  case 13: { head("Pbil", ", " + S(pop)); MK(al::Pbil, n, pop); SET(set_num_iterations, T); MAYBE(set_learning_rate, lr); MAYBE(set_selection_size, sel); break; }
  case 14: { head("NpsPbil", ", " + S(pop)); MK(al::NpsPbil, n, pop); SET(set_num_iterations, T); MAYBE(set_learning_rate, lr); MAYBE(set_selection_size, sel); break; }
  case 15: { head("Umda", ", " + S(pop)); MK(al::Umda, n, pop); SET(set_num_iterations, T); MAYBE(set_selection_size, sel); break; }
  case 16: { head("CompactGa", ""); MK(al::CompactGa, n); SET(set_num_iterations, T); MAYBE(set_learning_rate, lr); break; }
  case 17: { head("Mmas", ""); MK(al::Mmas, n); SET(set_num_iterations, T); MAYBE(set_learning_rate, lr); break; }
  case 18: { namespace wm = al::walsh_moment; head("Hea", ", " + S(pop)); MK(wm::Hea<wm::FullMomentHerding>, n, pop); SET(set_num_iterations, T); MAYBE(set_bound_moment, g.flag()); MAYBE(set_learning_rate, lr); MAYBE(set_randomize_bit_order, g.flag()); MAYBE(set_reset_period, g.irange(0, 3)); MAYBE(set_selection_size, sel); break; }
  case 19: { namespace wm = al::walsh_moment; head("BmPbil", ", " + S(pop)); MK(wm::BmPbil<wm::FullMomentGibbsSampler>, n, pop); SET(set_num_iterations, T); MAYBE(set_learning_rate, lr); MAYBE(set_negative_positive_selection, g.flag()); MAYBE(set_num_gs_cycles, g.irange(1, 3)); MAYBE(set_num_gs_steps, g.irange(1, 20)); MAYBE(set_reset_mode, int(g.below(3))); MAYBE(set_sampling_mode, int(g.below(3))); MAYBE(set_selection_size, sel); break; }
  case 20: { head("Mimic", ", " + S(pop)); MK(al::Mimic, n, pop); SET(set_num_iterations, T); MAYBE(set_selection_size, sel); break; }
  case 21: case 22: { head("Hboa", ""); MK(al::fast_efficient_p3::Hboa, n); SET(set_population_size, g.irange(2, 20)); p.native = false; break; }
  case 23: { head("Ltga", ""); MK(al::fast_efficient_p3::Ltga, n); SET(set_population_size, g.irange(2, 20)); p.native = false; break; }
  case 24: { head("Gomea", ""); MK(al::gomea::Gomea, n); p.native = false; break; }
  default: { head("ParameterLessPopulationPyramid", ""); MK(al::fast_efficient_p3::ParameterLessPopulationPyramid, n); p.native = false; }
  }
  return p;
}
static std::string run_cc(al::Algorithm& a, const std::vector<fn::Function *>& fs) { std::string r; try { a.maximize(fs); } catch (hnco::exception::LastEvaluation&) { r = "L"; } catch (hnco::exception::TargetReached&) { r = "T"; } a.finalize(); return r; }
static void same_log(const std::vector<alg::Ev>& a, const std::vector<alg::Ev>& b) { for (size_t i = 0; i < std::min(a.size(), b.size()); i++) REQUIRE(a[i].x == b[i].x && a[i].inc == b[i].inc, "trajectory", "evaluation " << i << ": " << bits(a[i].x) << " instead of " << bits(b[i].x)); REQUIRE(a.size() == b.size(), "trajectory", a.size() << " evaluations instead of " << b.size()); }
PBT(algorithms, 1500, 20000) { // every bound algorithm and setter
  Py e; int n = g.irange(2, 12), T = g.irange(1, 12); PA p = gen_alg(g, n, T); bool drop = p.h && g.flag(); Obj o = gen_obj(g, n); long budget = p.native && g.chance(2, 3) ? -1 : g.irange(1, 60); bool inc = g.flag(); g.note() << p.py << " on " << o.name << " budget " << budget; g.label(p.name); g.nontrivial(T > 1);
  Recorder ra(o.f, n, inc, budget), rb(o.f, n, inc, budget); e.run(p.py); if (drop) e.run("gc.collect(); junk = [BV(k) for k in range(1, 60)]"); e.ref<fn::Function>("f", &ra); int times = g.irange(1, 2); unsigned s = g.seed32();
  for (int t = 0; t < times; t++) { Generator::set_seed(s); std::string x = e.get<std::string>("runs(a, [f])"); Generator::set_seed(s); std::string y = run_cc(*p.a, {&rb}); same_log(ra.log, rb.log); REQUIRE(x == y, "ending", "'" << x << "' instead of '" << y << "'"); if (ra.log.empty()) return; auto w = p.a->get_solution(); REQUIRE(e.get<BV>("a.get_solution().first") == w.first && e.get<double>("a.get_solution().second") == w.second, "solution", e.str("a.get_solution()") << " instead of " << bits(w.first)); REQUIRE(e.get<BV>("a.solution.first") == w.first && e.get<double>("a.solution.second") == w.second, "solution-member", ""); std::ostringstream q; q << bits(w.first) << " -> " << w.second; REQUIRE(e.str("a.get_solution()") == q.str(), "solution-text", e.str("a.get_solution()") << " instead of " << q.str()); if (budget >= 0) ra.budget = rb.budget = ra.log.size() + budget; }
}
PBT(python_functions, 800, 10000) { // functions written in Python
  Py e; int n = g.irange(2, 12), T = g.irange(1, 10); PA p = gen_alg(g, n, T, true); std::vector<double> w(n); double top = 0; for (double& v : w) { v = gen_weight(g); top += std::max(v, 0.0); } bool known = g.flag(); int stop = g.chance(1, 3) ? g.irange(0, 40) : -1; bool ctrl = known && g.flag(), count = g.flag(); e.run(p.py + "\no = Fun(" + S(n) + ", " + lst(w) + ", " + (known ? num(top) : "None") + "); o.stop = " + S(stop)); g.note() << p.py << " on weights " << lst(w) << (known ? " known" : "") << " stop " << stop << (ctrl ? " until maximum" : ""); g.nontrivial(true); g.label(p.name);
  struct Stop {}; auto value = [&](const BV& x) { double r = 0; for (int i = 0; i < n; i++) r += w[i] * x[i]; return r; }; struct Twin: Recorder { int stop; bool known; double top; Twin(std::function<double(const BV&)> f, int n, int s, bool k, double t): Recorder(f, n), stop(s), known(k), top(t) {} bool has_known_maximum() const override { return known; } double get_maximum() const override { return top; } double evaluate(const BV& x) override { if (int(log.size()) == stop) throw Stop(); return Recorder::evaluate(x); } double evaluate_incrementally(const BV& x, double, const hnco::sparse_bit_vector_t& fl) override { BV y = x; for (int i : fl) y[i] ^= 1; return evaluate(y); } } twin(value, n, stop, known, top);
  fn::Function *f = e.get<fn::Function *>("o"); REQUIRE(f->get_bv_size() == n && f->has_known_maximum() == known, "declared", "size " << f->get_bv_size()); if (known) REQUIRE(f->get_maximum() == top, "declared-maximum", f->get_maximum()); BV probe = g.bits(n); { int keep = stop; e.run("o.stop = -1"); REQUIRE(f->evaluate(probe) == value(probe), "from-cc", f->evaluate(probe)); e.run("o.log = []; o.stop = " + S(keep)); } REQUIRE(!f->provides_incremental_evaluation(), "incremental", "");
  std::unique_ptr<ct::StopOnMaximum> som; std::unique_ptr<ct::CallCounter> cc; fn::Function *t = &twin; std::string last = "o"; if (ctrl) { som.reset(new ct::StopOnMaximum(t)); t = som.get(); e.run("s = C.StopOnMaximum(o)"); last = "s"; } if (count) { cc.reset(new ct::CallCounter(t)); t = cc.get(); e.run("k = C.CallCounter(" + last + ")"); last = "k"; }
  unsigned s = g.seed32(); Generator::set_seed(s); e.run("r = None\ntry: r = runs(a, [" + last + "])\nexcept ValueError as x: r = 'E' + str(x)"); std::string x = e.str("r"); Generator::set_seed(s); std::string y; try { y = run_cc(*p.a, {t}); } catch (Stop&) { y = "Estop"; } REQUIRE(x == y, "ending", "'" << x << "' instead of '" << y << "'"); auto log = e.get<std::vector<std::string>>("[''.join(map(str, x)) for x in o.log]"); for (size_t i = 0; i < std::min(log.size(), twin.log.size()); i++) REQUIRE(log[i] == bits(twin.log[i].x), "trajectory", "evaluation " << i << ": " << log[i] << " instead of " << bits(twin.log[i].x)); REQUIRE(log.size() == twin.log.size(), "trajectory", log.size() << " evaluations instead of " << twin.log.size());
  if (y[0] != 'E') { auto q = p.a->get_solution(); REQUIRE(e.get<BV>("a.get_solution().first") == q.first && e.get<double>("a.get_solution().second") == q.second, "solution", e.str("a.get_solution()")); } if (count) REQUIRE(e.get<int>("k.get_num_calls()") == cc->get_num_calls(), "calls", "");
  e.run("l = Least(" + S(n) + ")\nq = ''\ntry: l.get_maximum()\nexcept Exception: q = 'x'"); REQUIRE(!e.get<bool>("l.has_known_maximum()") && e.str("q") == "x" && e.get<fn::Function *>("l")->get_bv_size() == n, "least", "");
}
struct Reps { int nb = 0; std::vector<rp::DyadicIntegerRepresentation<int>> i; std::vector<rp::DyadicFloatRepresentation<double>> f; std::vector<rp::ComplexRepresentation<rp::DyadicFloatRepresentation<double>>> c; std::vector<rp::LinearCategoricalRepresentation> k; std::vector<rp::PermutationRepresentation> p; std::string pi = "[", pf = "[", pc = "[", pk = "[", pp = "["; };
static std::pair<std::string, rp::DyadicFloatRepresentation<double>> gen_float(Gen& g) { double a = g.real(-10, 10), b = a + g.real(0.5, 20); if (g.flag()) { int s = g.irange(1, 12); return {"R.DyadicFloatRepresentation(" + num(a) + ", " + num(b) + ", " + S(s) + ")", {a, b, s}}; } double p = g.real(0.01, 0.4); return {"R.DyadicFloatRepresentation(" + num(a) + ", " + num(b) + ", " + num(p) + ")", {a, b, p}}; }
static Reps gen_reps(Gen& g) { Reps r; r.nb = g.irange(0, 3); for (int j = g.irange(0, 2); j > 0; j--) { int a = g.range(-50, 50), b = a + g.irange(1, 60); if (g.flag()) { r.i.emplace_back(a, b); r.pi += "R.DyadicIntegerRepresentation(" + S(a) + ", " + S(b) + "),"; } else { int full = r.i.emplace_back(a, b).size(), s = g.irange(1, full); r.i.pop_back(); r.i.emplace_back(a, b, s); r.pi += "R.DyadicIntegerRepresentation(" + S(a) + ", " + S(b) + ", " + S(s) + "),"; } }
  for (int j = g.irange(0, 2); j > 0; j--) { auto t = gen_float(g); r.f.push_back(t.second); r.pf += t.first + ","; } for (int j = g.irange(0, 2); j > 0; j--) { auto t = gen_float(g), u = gen_float(g); if (g.flag()) { r.c.emplace_back(t.second); r.pc += "R.ComplexRepresentation(" + t.first + "),"; } else { r.c.emplace_back(t.second, u.second); r.pc += "R.ComplexRepresentation(" + t.first + ", " + u.first + "),"; } }
  for (int j = g.irange(0, 2); j > 0; j--) { int m = g.irange(2, 12); r.k.emplace_back(m); r.pk += "R.LinearCategoricalRepresentation(" + S(m) + "),"; } for (int j = g.irange(0, 2); j > 0; j--) { int m = g.irange(2, 7), x = g.irange(1, 3); r.p.emplace_back(m, x); r.pp += "R.PermutationRepresentation(" + S(m) + ", " + S(x) + "),"; } for (auto *q : {&r.pi, &r.pf, &r.pc, &r.pk, &r.pp}) *q += "]"; if (r.nb + r.i.size() + r.f.size() + r.c.size() + r.k.size() + r.p.size() == 0) r.nb = 1; return r; }
struct Tup { BV b; std::vector<int> i; std::vector<double> f; std::vector<std::complex<double>> c; std::vector<int> k; std::vector<permutation_t> p; std::string text() const { auto L = [](const auto& v) { py::list l; for (const auto& x : v) l.append(x); return l; }; py::list ps, bl; for (auto& q : p) { py::list m; for (int x : q) m.append(x); ps.append(m); } for (int x : b) bl.append(x); return py::str(py::make_tuple(bl, L(i), L(f), L(c), L(k), ps)).cast<std::string>(); } };
struct CUni: fn::UniversalFunction { Tup t; double out; double evaluate(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t>& p) override { t = {b, i, f, c, k, p}; return out; } };
struct CMo: mo::function::UniversalFunction { Tup t; std::vector<double> out; int get_output_size() const override { return out.size(); } void evaluate(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t> p, mo::function::value_t& v) override { t = {b, i, f, c, k, p}; for (size_t j = 0; j < out.size(); j++) v[j] = out[j]; } };
PBT(universal, 600, 8000) { // functions of mixed variables written in Python
  Py e; Reps r = gen_reps(g); bool multi = g.flag(), drop = g.flag(); int m = g.irange(1, 4); std::vector<double> out; for (int j = 0; j < m; j++) out.push_back(g.real(-10, 10)); std::string args = S(r.nb) + ", " + r.pi + ", " + r.pf + ", " + r.pc + ", " + r.pk + ", " + r.pp + ")"; unsigned s = g.seed32(); g.nontrivial(r.i.size() + r.f.size() + r.c.size() + r.k.size() + r.p.size() > 1); g.label(multi ? "multi" : "single"); std::string code = multi ? "u = MoUni(" + S(m) + ")\no = MF.UniversalFunctionAdapter(u, " + args : "u = Uni()\no = F.UniversalFunctionAdapter(u, " + args; if (drop) code += "\nU = [u]; del u"; g.note() << code; e.run(code + (drop ? "" : "\nU = [u]"));
  CUni cu; CMo cm; cm.out = out; fn::UniversalFunctionAdapter a(&cu, r.nb, r.i, r.f, r.c, r.k, r.p); mo::function::UniversalFunctionAdapter b(&cm, r.nb, r.i, r.f, r.c, r.k, r.p); int n = multi ? b.get_bv_size() : a.get_bv_size(); REQUIRE(e.get<int>("o.get_bv_size()") == n, "size", e.str("o.get_bv_size()") << " instead of " << n); if (multi) REQUIRE(e.get<int>("o.get_output_size()") == m, "outputs", e.str("o.get_output_size()"));
  for (int t = 0; t < 3; t++) { BV x = g.bits(n); e.bvs("xs", {x}); Generator::set_seed(s + t); if (multi) { py::list l; for (double v : out) l.append(v); e.d["out"] = l; e.run("U[0].out = out\nv = MF.Value(" + S(m) + ")\no.evaluate(xs[0], v)"); REQUIRE(e.get<mo::function::value_t>("v") == out, "values", e.str("v")); Generator::set_seed(s + t); mo::function::value_t v(m); b.evaluate(x, v); REQUIRE(e.str("U[0].got") == cm.t.text(), "arguments", e.str("U[0].got") << " instead of " << cm.t.text()); } else { cu.out = out[0] + t; e.d["out"] = cu.out; e.run("U[0].out = out\nv = o.evaluate(xs[0])"); REQUIRE(e.get<double>("v") == cu.out, "value", e.str("v")); Generator::set_seed(s + t); a.evaluate(x); REQUIRE(e.str("U[0].got") == cu.t.text(), "arguments", e.str("U[0].got") << " instead of " << cu.t.text()); { Quiet q; e.run("hnco.bv_describe(xs[0], o)"); } } }
}
PBT(lifetimes, 400, 4000) { // the adapter alone keeps the Python function
  Py e; bool multi = g.flag(); int n = g.irange(1, 6); double v = g.real(-9, 9); BV x = g.bits(n); e.bvs("xs", {x}); g.note() << (multi ? "multi " : "single ") << n << " " << v; g.nontrivial(n > 1); e.d["out"] = v;
  e.run(multi ? "u = MoUni(1)\nu.out = [out]\no = MF.UniversalFunctionAdapter(u, " + S(n) + ", [], [], [], [], [])\ndel u\ngc.collect()\njunk = [MoUni(1) for k in range(20)]\nv = MF.Value(1)\no.evaluate(xs[0], v)\nw = v[0]" : "u = Uni()\nu.out = out\no = F.UniversalFunctionAdapter(u, " + S(n) + ", [], [], [], [], [])\ndel u\ngc.collect()\njunk = [Uni() for k in range(20)]\nw = o.evaluate(xs[0])"); REQUIRE(e.get<double>("w") == v, "value", e.str("w") << " instead of " << v);
  e.run("f = Fun(" + S(n) + ", [1] * " + S(n) + ", None)\nf = C.CallCounter(M.OppositeFunction(C.ProgressTracker(f)))\ngc.collect()\njunk = [Fun(1, [0], None) for k in range(20)]\nw = f.evaluate(xs[0])"); REQUIRE(e.get<double>("w") == -std::count(x.begin(), x.end(), 1), "nested", e.str("w"));
}
PBT(representations, 800, 10000) { // representations unpack as in C++
  Py e; Reps r = gen_reps(g); e.run("L = " + r.pi + " + " + r.pf + " + " + r.pc + " + " + r.pk + " + " + r.pp); g.note() << r.pi << r.pf << r.pc << r.pk << r.pp; int at = 0; g.nontrivial(r.i.size() + r.f.size() + r.c.size() + r.k.size() + r.p.size() > 1);
  auto one = [&](auto& rep, auto plain) { std::string v = "L[" + S(at++) + "]"; int n = rep.size(), off = g.irange(0, 5); REQUIRE(e.get<int>(v + ".size()") == n, "size", e.str(v + ".size()") << " instead of " << n); REQUIRE(e.str(v) == shown(rep), "display", e.str(v) << " instead of " << shown(rep)); for (int t = 0; t < 3; t++) { BV x = g.bits(off + n + g.irange(0, 3)); e.bvs("xs", {x}); plain(v, rep, x, off); } };
  auto scalar = [&](const std::string& v, auto& rep, const BV& x, int off) { auto w = rep.unpack(x, off); REQUIRE(e.get<std::decay_t<decltype(w)>>(v + ".unpack(xs[0], " + S(off) + ")") == w, "unpack", e.str(v + ".unpack(xs[0], " + S(off) + ")") << " instead of " << w); }; for (auto& q : r.i) one(q, scalar); for (auto& q : r.f) one(q, scalar); for (auto& q : r.c) one(q, scalar); for (auto& q : r.k) one(q, scalar);
  unsigned s = g.seed32(); for (auto& q : r.p) one(q, [&](const std::string& v, rp::PermutationRepresentation& rep, const BV& x, int off) { int m = rep.get_num_elements(); permutation_t w(m); Generator::set_seed(s); e.run("p = Perm([0] * " + S(m) + ")\n" + v + ".unpack(xs[0], " + S(off) + ", p)"); Generator::set_seed(s); rep.unpack(x, off, w); REQUIRE(e.get<permutation_t>("p") == w, "unpack", e.str("p")); });
}
struct CLin: mo::function::Function { int n; std::vector<std::vector<double>> w; std::vector<BV> log; int get_bv_size() const override { return n; } int get_output_size() const override { return w.size(); } void evaluate(const BV& x, mo::function::value_t& v) override { log.push_back(x); for (size_t k = 0; k < w.size(); k++) { v[k] = 0; for (int i = 0; i < n; i++) v[k] += w[k][i] * x[i]; } } };
PBT(multiobjective, 400, 5000) { // NSGA-II from Python
  Py e; int n = g.irange(2, 10), m = g.irange(1, 3), mu = g.irange(12, 20), T = g.irange(1, 6); CLin f; f.n = n; std::string w = "["; for (int k = 0; k < m; k++) { std::vector<double> v(n); for (double& x : v) x = gen_weight(g); f.w.push_back(v); w += lst(v) + ","; } w += "]"; mo::algorithm::Nsga2 A2(n, m, mu); auto *a = &A2; struct { std::string py; } p; p.py = "a = MA.Nsga2(" + S(n) + ", " + S(m) + ", " + S(mu) + ")"; SET(set_num_iterations, T); MAYBE(set_tournament_size, g.irange(2, 6)); MAYBE(set_mutation_rate, g.pick(std::vector<double>{1.0 / n, 0.5})); MAYBE(set_allow_no_mutation, g.flag()); MAYBE(set_crossover_probability, g.pick(std::vector<double>{0, 0.5, 1}));
  e.run(p.py + "\no = MoFun(" + S(n) + ", " + w + ")"); g.note() << p.py << " weights " << w; g.nontrivial(m > 1); bool py_side = g.flag(); unsigned s = g.seed32(); std::vector<BV> seen; Generator::set_seed(s); CLin twin = f; if (!py_side) e.ref<mo::function::Function>("o", &twin); e.run("a.minimize([o])\ns = a.get_solutions()"); Generator::set_seed(s); A2.minimize({&f}); const auto& q = A2.get_solutions();
  auto log = py_side ? e.get<std::vector<std::string>>("[''.join(map(str, x)) for x in o.log]") : std::vector<std::string>(); if (!py_side) for (auto& x : twin.log) log.push_back(bits(x)); REQUIRE(log.size() == f.log.size(), "trajectory", log.size() << " evaluations instead of " << f.log.size()); for (size_t i = 0; i < log.size(); i++) REQUIRE(log[i] == bits(f.log[i]), "trajectory", "evaluation " << i << ": " << log[i] << " instead of " << bits(f.log[i]));
  REQUIRE(e.get<int>("s.get_size()") == q.get_size() && e.get<int>("len(s.bvs)") == q.get_size() && e.get<int>("len(s.values)") == q.get_size(), "count", e.str("s.get_size()")); for (int i = 0; i < q.get_size(); i++) { REQUIRE(e.get<BV>("s.bvs[" + S(i) + "]") == q.bvs[i] && e.get<mo::function::value_t>("s.values[" + S(i) + "]") == q.values[i], "solutions", "solution " << i); std::ostringstream t; mo::function::value_display(q.values[i], t); REQUIRE(e.str("s.values[" + S(i) + "]") == t.str(), "value-text", e.str("s.values[" + S(i) + "]")); }
  int k = g.irange(1, 8); Generator::set_seed(s); e.run("p = MA.Population(" + S(k) + ", " + S(n) + ", " + S(m) + ")\np.random()\np.evaluate(o)"); Generator::set_seed(s); mo::algorithm::Population pop(k, n, m); pop.random(); pop.evaluate(&f); REQUIRE(e.get<int>("p.get_size()") == k, "population-size", ""); for (int i = 0; i < k; i++) REQUIRE(e.get<BV>("p.bvs[" + S(i) + "]") == pop.bvs[i] && e.get<mo::function::value_t>("p.values[" + S(i) + "]") == pop.values[i], "population", "individual " << i);
}
PBT(python_algorithms, 500, 6000) { // algorithms written in Python
  Py e; int n = g.irange(1, 12), T = g.irange(1, 10), np = g.irange(1, 6); auto pts = points(g, n, np); Obj o = gen_obj(g, n); long budget = g.chance(1, 3) ? g.irange(1, 12) : -1; Recorder r(o.f, n, false, budget); e.bvs("pts", pts); e.ref<fn::Function>("f", &r); bool from_cc = budget < 0 && g.flag(); g.note() << n << " bits, " << T << " iterations, " << np << " points, budget " << budget << " on " << o.name; g.nontrivial(T > 1 && n > 1); unsigned s = g.seed32(); e.run("a = Iter(" + S(n) + ", pts)\na.set_num_iterations(" + S(T) + ")");
  int times = g.irange(1, 2); for (int t = 0; t < times; t++) { r.log.clear(); Generator::set_seed(s + t); std::string x = from_cc ? run_cc(*e.get<al::Algorithm *>("a"), {&r}) : e.get<std::string>("runs(a, [f])"); Generator::set_seed(s + t); BV first(n); hnco::bv_random(first); std::vector<BV> want{first}; for (int i = 0; i < T; i++) want.push_back(pts[i % np]); bool cut = budget >= 0 && budget < long(want.size()); if (cut) want.resize(budget); REQUIRE(x == (cut ? "L" : ""), "ending", "'" << x << "'"); REQUIRE(r.log.size() == want.size(), "evaluations", r.log.size() << " instead of " << want.size()); for (size_t i = 0; i < want.size(); i++) REQUIRE(r.log[i].x == want[i], "point", "evaluation " << i); REQUIRE(e.get<int>("a.inits") == t + 1, "inits", e.str("a.inits")); if (want.empty()) continue; size_t b = 0; for (size_t i = 1; i < want.size(); i++) if (r.log[i].v > r.log[b].v) b = i; auto sol = e.get<al::Algorithm *>("a")->get_solution(); REQUIRE(sol.first == want[b] && sol.second == r.log[b].v, "solution", bits(sol.first) << " instead of " << bits(want[b])); REQUIRE(e.get<BV>("a.get_solution().first") == sol.first, "solution-python", ""); }
  Recorder q(o.f, n); e.run("b = Algo(" + S(n) + ", pts)"); e.ref<fn::Function>("f", &q); int twice = g.irange(1, 2); if (from_cc) { auto *b = e.get<al::Algorithm *>("b"); b->maximize(std::vector<fn::Function *>(twice, &q)); b->finalize(); } else e.run(twice == 2 ? "b.maximize([f, f]); b.finalize()" : "b.maximize([f]); b.finalize()"); REQUIRE(int(q.log.size()) == np * twice && e.get<int>("b.done") == 1, "direct", q.log.size() << " evaluations"); std::vector<double> got; for (auto h : e.eval("b.got")) got.push_back(py::cast<double>(h)); for (int i = 0; i < np * twice; i++) REQUIRE(got[i] == q.log[i].v && q.log[i].x == pts[i % np], "direct-value", i);
}
PBT(populations, 600, 8000) { // populations handled from Python
  Py e; int n = g.irange(1, 10), k = g.irange(1, 12); Obj o = gen_obj(g, n, true); Recorder ra(o.f, n), rb(o.f, n); e.ref<fn::Function>("f", &ra); al::Population p(k, n); unsigned s = g.seed32(); g.nontrivial(k > 1 && n > 1); e.run("p = A.Population(" + S(k) + ", " + S(n) + ")"); REQUIRE(e.get<int>("p.get_size()") == k && e.get<int>("p.get_bv_size()") == n, "sizes", ""); bool given = g.flag(); int sel = g.irange(1, k); bool part = g.flag(); g.note() << k << " of " << n << " bits on " << o.name << (given ? " given" : " random") << (part ? " selection " + S(sel) : "");
  if (given) { auto pts = points(g, n, k); e.bvs("pts", pts); e.run("p.bvs = pts"); p.bvs = pts; } else { Generator::set_seed(s); e.run("p.random()"); Generator::set_seed(s); p.random(); } e.run("p.evaluate(f)"); p.evaluate(&rb); Generator::set_seed(s); e.run(part ? "p.partial_sort(" + S(sel) + ")" : "p.sort()"); Generator::set_seed(s); if (part) p.partial_sort(sel); else { p.sort(); sel = k; }
  REQUIRE(e.get<BV>("p.get_best_bv()") == p.get_best_bv() && e.get<double>("p.get_best_value()") == p.get_best_value(), "best", e.str("p.get_best_value()")); for (int i = 0; i < sel; i++) REQUIRE(e.get<BV>("p.get_best_bv(" + S(i) + ")") == p.get_best_bv(i) && e.get<double>("p.get_best_value(" + S(i) + ")") == p.get_best_value(i), "rank", "rank " << i); for (int i = 0; i < k; i++) REQUIRE(e.get<BV>("p.bvs[" + S(i) + "]") == p.bvs[i] && e.get<double>("p.values[" + S(i) + "]") == p.values[i], "member", "individual " << i); if (!part) for (int i = 0; i < k; i++) { auto q = p.get_equivalent_bvs(i); REQUIRE(e.get<BV>("p.get_worst_bv(" + S(i) + ")") == p.get_worst_bv(i), "worst", i); REQUIRE(e.get<int>("p.get_equivalent_bvs(" + S(i) + ")[0]") == q.first && e.get<int>("p.get_equivalent_bvs(" + S(i) + ")[1]") == q.second, "equivalent", i); }
}
PBT(containers, 800, 10000) { // bit vectors, permutations, values and random numbers
  Py e; int n = g.irange(0, 40); BV x = g.bits(n); unsigned s = g.seed32(); g.note() << n << " seed " << s; g.nontrivial(n > 1); int b = g.flag(); e.run("x = BV([int(c) for c in '" + bits(x) + "'])\ny = BV(" + S(n) + ")\nz = BV(" + S(n) + ", " + S(b) + ")"); REQUIRE(e.get<BV>("x") == x && e.get<BV>("y") == BV(n) && e.get<BV>("z") == BV(n, b), "bits", e.str("x")); REQUIRE(e.str("x") == bits(x) && e.get<int>("len(x)") == n, "text", e.str("x")); e.run("G.set_seed(" + std::to_string(s) + "); z.random()"); BV w(n); Generator::set_seed(s); hnco::bv_random(w); REQUIRE(e.get<BV>("z") == w, "random", e.str("z")); if (n) { int i = g.below(n); e.run("x[" + S(i) + "] = 1 - x[" + S(i) + "]"); x[i] ^= 1; REQUIRE(e.get<BV>("x") == x && e.get<int>("x[" + S(i) + "]") == x[i], "assign", e.str("x")); }
  e.run("p = Perm(" + S(n) + ")\nG.set_seed(" + std::to_string(s) + "); p.random()"); permutation_t q(n); Generator::set_seed(s); hnco::perm_random(q); REQUIRE(e.get<permutation_t>("p") == q, "permutation", e.str("p")); { std::ostringstream o; hnco::perm_display(q, o); REQUIRE(e.str("p") == o.str(), "permutation-text", e.str("p")); } double v = g.real(-5, 5); e.run("v = MF.Value(" + S(n) + ", " + num(v) + ")\nu = MF.Value(" + S(n) + ")"); mo::function::value_t c(n, v); REQUIRE(e.get<mo::function::value_t>("v") == c && e.get<mo::function::value_t>("u") == mo::function::value_t(n), "value", e.str("v")); { std::ostringstream o; mo::function::value_display(c, o); REQUIRE(e.str("v") == o.str(), "value-text", e.str("v")); }
  e.run("G.set_seed(" + std::to_string(s) + "); r = [G.uniform() for k in range(5)]; G.reset(); t = [G.uniform() for k in range(5)]"); Generator::set_seed(s); for (int i = 0; i < 5; i++) { double d = Generator::uniform(); REQUIRE(e.get<double>("r[" + S(i) + "]") == d && e.get<double>("t[" + S(i) + "]") == d, "uniform", "draw " << i); }
}
PBT(python_file, 24, 200) { // functions given by a Python file
  int n = g.irange(1, 12); bool known = g.flag(); std::vector<double> w(n); double top = 0; for (double& v : w) { v = gen_weight(g); top += std::max(v, 0.0); } static const std::vector<std::string> names{"fn", "f1", "my_function"}; std::string name = g.pick(names), path = tmpfile_path("fn.py"); int fault = g.below(6); // 0: wrong name, 1: error in the file, 2: error while evaluating
  std::string src = "import hnco.function as fct\nclass K(fct.Function):\n  def __init__(self):\n    super().__init__()\n    self.w = " + lst(w) + "\n  def get_bv_size(self): return len(self.w)\n" + (known ? "  def has_known_maximum(self): return True\n  def get_maximum(self): return " + num(top) + "\n" : "") + "  def evaluate(self, x):\n" + (fault == 2 ? "    raise ValueError('no')\n" : "") + "    r = 0.0\n    for a, b in zip(self.w, x): r += a * b\n    return r\n" + (fault == 1 ? "boom(\n" : "") + name + " = K()\n"; spit(path, src); auto xs = points(g, n, 4); std::string in; for (auto& x : xs) in += bits(x) + "\n"; spit(tmpfile_path("in"), in); g.note() << src << " points " << in << " fault " << fault; g.nontrivial(n > 1); g.label(fault < 3 ? "faulty" : "sound");
  pid_t c = fork(); if (!c) { setenv("P26_PATH", path.c_str(), 1); setenv("P26_NAME", fault == 0 ? "nothing" : name.c_str(), 1); int a = open(tmpfile_path("in").c_str(), O_RDONLY), b = open(tmpfile_path("out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), z = open("/dev/null", O_WRONLY); dup2(a, 0); dup2(b, 1); dup2(z, 2); execl("/proc/self/exe", "p26", (char *)0); _exit(99); } int st = 0; waitpid(c, &st, 0); REQUIRE(WIFEXITED(st), "crash", "signal " << WTERMSIG(st)); std::string out = slurp_file(tmpfile_path("out")); std::ostringstream want; want << n << " " << int(known) << "\n"; char buf[64]; if (known) { snprintf(buf, 64, "%a\n", top); want << buf; } if (fault == 2) want << "exception\n"; else for (auto& x : xs) { double v = 0; for (int i = 0; i < n; i++) v += w[i] * x[i]; snprintf(buf, 64, "%a\n", v); want << buf; } int code = fault < 3 ? 3 : 0; REQUIRE(WEXITSTATUS(st) == code, "status", "exit status " << WEXITSTATUS(st) << " instead of " << code << ", output " << out); if (fault < 2) REQUIRE(out == "exception\n", "refused", out); else REQUIRE(out == want.str(), "output", out << " instead of " << want.str());
}
