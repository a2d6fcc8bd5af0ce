// P12: composite and parsed functions see the variables the bit vector encodes.
#include "expr.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/universal-function-adapter.hh"
#include "hnco/functions/permutation-function-adapter.hh"
#include "hnco/functions/multiobjective-function-adapter.hh"
#include "hnco/functions/collection/parsed-multivariate-function.hh"
#include "hnco/multiobjective/functions/multivariate-function-adapter.hh"
#include "hnco/multiobjective/functions/universal-function-adapter.hh"
#include "hnco/multiobjective/functions/collection/parsed-multivariate-function.hh"
#include "hnco/app/make-multivariate-function-adapter.hh"
using namespace hnco::function; using namespace hnco::representation; namespace mo = hnco::multiobjective::function; namespace app = hnco::app;
typedef std::complex<double> C; typedef DyadicIntegerRepresentation<int> IR; typedef DyadicIntegerRepresentation<long> LR; typedef DyadicFloatRepresentation<double> DR; typedef ComplexRepresentation<DR> CR;
static const double INF = std::numeric_limits<double>::infinity();
static int bitlen(unsigned long v) { int b = 0; while (v) { b++; v >>= 1; } return b; }
// Reference decoders
struct Dom { int kind = 0; long a = 0, b = 0; double lo = 0, hi = 0; int bits = 0; std::vector<double> set; }; // 0 int 1 long 2 double 3 set
static double decode(const Dom& d, const BV& x, int start) {
  if (d.kind == 2) { double f = 0; for (int i = 0; i < d.bits; i++) if (x[start + i]) f += std::ldexp(1.0, -(i + 1)); return d.lo + (d.hi - d.lo) * f; }
  unsigned long u = 0; for (int i = 0; i < d.bits; i++) u |= (unsigned long)x[start + i] << i; if (d.kind == 3) { auto s = d.set; std::sort(s.begin(), s.end()); return s[std::min<unsigned long>(u, s.size() - 1)]; } return double(d.a + long(std::min<unsigned long>(u, d.b - d.a)));
}
static Dom gen_dom(Gen& g, int kind) {
  Dom d; d.kind = kind; if (kind <= 1) { d.a = g.range(-12, 12); d.b = d.a + g.range(1, 20); if (g.chance(1, 10)) { d.a = -d.a * 100; d.b = d.a + g.range(1, 1000); } d.bits = std::max(1, bitlen(d.b - d.a)); } else if (kind == 2) { d.lo = double(g.range(-16, 16)) / 4; d.hi = d.lo + double(g.range(1, 32)) / 4; d.bits = g.irange(1, 12); } else { int k = g.irange(1, 7); for (int i = 0; i < k; i++) d.set.push_back(double(g.range(-20, 20)) / 4); d.bits = std::max(1, bitlen(k - 1)); }
  return d;
}
static IR rep_i(const Dom& d) { return IR(int(d.a), int(d.b)); } static LR rep_l(const Dom& d) { return LR(d.a, d.b); } static DR rep_d(const Dom& d) { return DR(d.lo, d.hi, d.bits); }
// Functions which remember what they were given
template<class T> struct Rec { typedef T domain_type; typedef T codomain_type; int nv; std::vector<T> got, described; T out{}; int evals = 0; Rec(int n): nv(n) {} int get_num_variables() { return nv; } T evaluate(const std::vector<T>& v) { got = v; evals++; return out; } void describe(const std::vector<T>& v, std::ostream&) { described = v; } void display(std::ostream&) const {} };
template<class T> struct MoRec { typedef T domain_type; typedef T codomain_type; int nv, no; std::vector<T> got, described, out; MoRec(int n, int o): nv(n), no(o), out(o) {} int get_num_variables() const { return nv; } int get_output_size() const { return no; } void evaluate(const std::vector<T>& v, std::vector<T>& r) { got = v; REQUIRE(int(r.size()) == no, "output-size", r.size()); for (int i = 0; i < no; i++) r[i] = out[i]; } void describe(const std::vector<T>& v, std::ostream&) { described = v; } void display(std::ostream&) const {} };
template<class Fn, class Rep, class Conv, class T> static void so_case(Gen& g, const std::vector<Rep>& reps, std::function<T(int, const BV&, int)> ref, std::function<T(Gen&)> outs, std::function<double(T)> conv) {
  int n = reps.size(); Fn f(n); MultivariateFunctionAdapter<Fn, Rep, Conv> ad(&f, reps); int total = 0; for (auto& r : reps) total += r.size(); REQUIRE(ad.get_bv_size() == total, "size", ad.get_bv_size() << " instead of " << total);
  for (int t = 0; t < 4; t++) { BV x = g.bits(total); f.out = outs(g); double v = ad.evaluate(x); REQUIRE(f.evals == t + 1, "evaluations", f.evals); double w = conv(f.out); REQUIRE(v == w, "converted", v << " instead of " << w); int start = 0; for (int i = 0; i < n; i++) { T want = ref(i, x, start); REQUIRE(f.got[i] == want, "variable", "variable " << i << " of " << n << ": " << f.got[i] << " instead of " << want << " in " << pbt::show(x)); start += reps[i].size(); }
    if (g.flag()) { BV y = g.bits(total); std::ostringstream o; ad.describe(y, o); start = 0; for (int i = 0; i < n; i++) { REQUIRE(f.described[i] == ref(i, y, start), "described", i); start += reps[i].size(); } } }
}
PBT(adapter, 20000, 200000) { // every converter, every number type
  seed(g); int n = g.small(1, 8); if (g.chance(1, 40)) n = g.irange(9, 90); std::vector<Dom> ds; int kind = g.below(4); g.note() << "kind " << kind << " n=" << n; g.nontrivial(n > 1); g.label("kind" + std::to_string(kind)); int cv = g.below(3);
  auto dout = [](Gen& g) { return g.weight(); }; auto id = [](double v) { return v; }; auto ab = [](double v) { return std::fabs(v); }; auto op = [](double v) { return -std::fabs(v); };
  if (kind == 0) { std::vector<IR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 0)); r.push_back(rep_i(ds[i])); } std::function<double(int, const BV&, int)> ref = [&](int i, const BV& x, int s) { return decode(ds[i], x, s); };
    if (cv == 0) so_case<Rec<double>, IR, ScalarToDouble<double>, double>(g, r, ref, dout, id); else if (cv == 1) so_case<Rec<double>, IR, AbsoluteValue<double>, double>(g, r, ref, dout, ab); else so_case<Rec<double>, IR, OppositeAbsoluteValue<double>, double>(g, r, ref, dout, op); }
  else if (kind == 1) { std::vector<LR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 1)); r.push_back(rep_l(ds[i])); } std::function<long(int, const BV&, int)> ref = [&](int i, const BV& x, int s) { return long(decode(ds[i], x, s)); }; auto lo = [](Gen& g) { return g.range(-1000000, 1000000); };
    auto lid = [](long v) { return double(v); }; auto lab = [](long v) { return double(std::labs(v)); }; auto lop = [](long v) { return -double(std::labs(v)); };
    if (cv == 0) so_case<Rec<long>, LR, ScalarToDouble<long>, long>(g, r, ref, lo, lid); else if (cv == 1) so_case<Rec<long>, LR, AbsoluteValue<long>, long>(g, r, ref, lo, lab); else so_case<Rec<long>, LR, OppositeAbsoluteValue<long>, long>(g, r, ref, lo, lop); }
  else if (kind == 2) { std::vector<DR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 2)); r.push_back(rep_d(ds[i])); } std::function<double(int, const BV&, int)> ref = [&](int i, const BV& x, int s) { return decode(ds[i], x, s); };
    if (cv == 0) so_case<Rec<double>, DR, ScalarToDouble<double>, double>(g, r, ref, dout, id); else if (cv == 1) so_case<Rec<double>, DR, AbsoluteValue<double>, double>(g, r, ref, dout, ab); else so_case<Rec<double>, DR, OppositeAbsoluteValue<double>, double>(g, r, ref, dout, op); }
  else { std::vector<CR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 2)); ds.push_back(gen_dom(g, 2)); r.push_back(CR(rep_d(ds[2 * i]), rep_d(ds[2 * i + 1]))); } std::function<C(int, const BV&, int)> ref = [&](int i, const BV& x, int s) { return C(decode(ds[2 * i], x, s), decode(ds[2 * i + 1], x, s + ds[2 * i].bits)); }; auto co = [](Gen& g) { return C(double(g.range(-20, 20)) / 4, double(g.range(-20, 20)) / 4); };
    auto sq = [](C z) { return z.real() * z.real() + z.imag() * z.imag(); }; auto osq = [](C z) { return -(z.real() * z.real() + z.imag() * z.imag()); };
    if (cv == 0) so_case<Rec<C>, CR, SquaredMagnitude<double>, C>(g, r, ref, co, sq); else so_case<Rec<C>, CR, OppositeSquaredMagnitude<double>, C>(g, r, ref, co, osq); }
}
static app::rep_var_t variant_of(const Dom& d) { switch (d.kind) { case 0: return rep_i(d); case 1: return rep_l(d); case 2: return rep_d(d); default: return app::ValueSetRep(d.set); } }
PBT(mixed_adapter, 15000, 150000) { // representations of different types, single and multiple objectives
  seed(g); int n = g.small(1, 8); if (g.chance(1, 40)) n = g.irange(9, 90); std::vector<Dom> ds; std::vector<app::rep_var_t> r; int total = 0; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, g.below(4))); r.push_back(variant_of(ds[i])); total += ds[i].bits; } g.note() << "n=" << n << " bits " << total; g.nontrivial(n > 1);
  Rec<double> f(n); MixedRepresentationMultivariateFunctionAdapter<Rec<double>, app::rep_var_t, AbsoluteValue<double>> ad(&f, r); int no = g.irange(1, 4); MoRec<double> h(n, no); mo::MixedRepresentationMultivariateFunctionAdapter<MoRec<double>, app::rep_var_t, AbsoluteValue<double>> am(&h, r);
  REQUIRE(ad.get_bv_size() == total && am.get_bv_size() == total, "size", ad.get_bv_size() << " " << am.get_bv_size() << " instead of " << total); REQUIRE(am.get_output_size() == no, "output-size", am.get_output_size());
  for (int t = 0; t < 4; t++) { BV x = g.bits(total); f.out = g.weight(); for (auto& v : h.out) v = g.weight(); REQUIRE(ad.evaluate(x) == std::fabs(f.out), "converted", f.out); mo::value_t v(no); am.evaluate(x, v); for (int i = 0; i < no; i++) REQUIRE(v[i] == std::fabs(h.out[i]), "converted", i); int s = 0; for (int i = 0; i < n; i++) { double want = decode(ds[i], x, s); REQUIRE(f.got[i] == want && h.got[i] == want, "variable", "variable " << i << ": " << f.got[i] << " and " << h.got[i] << " instead of " << want); s += ds[i].bits; } }
}
PBT(multiobjective_adapter, 15000, 150000) { // vector-valued functions, and their sum as a single objective
  seed(g); int n = g.small(1, 7), no = g.irange(1, 5); if (g.chance(1, 40)) n = g.irange(9, 90); if (g.chance(1, 40)) no = g.irange(6, 40); std::vector<Dom> ds; int total = 0; g.note() << "n=" << n << " objectives " << no; g.nontrivial(n > 1);
  if (g.flag()) { std::vector<DR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 2)); r.push_back(rep_d(ds[i])); total += ds[i].bits; } MoRec<double> h(n, no); mo::MultivariateFunctionAdapter<MoRec<double>, DR, ScalarToDouble<double>> am(&h, r); MultiobjectiveFunctionAdapter so(&am); REQUIRE(am.get_bv_size() == total && so.get_bv_size() == total, "size", total); REQUIRE(am.get_output_size() == no, "output-size", "");
    for (int t = 0; t < 4; t++) { BV x = g.bits(total); double sum = 0; for (auto& v : h.out) { v = double(g.range(-1000, 1000)) / 8; sum += v; } mo::value_t v(no); am.evaluate(x, v); for (int i = 0; i < no; i++) REQUIRE(v[i] == h.out[i], "objective", i); int s = 0; for (int i = 0; i < n; i++) { REQUIRE(h.got[i] == decode(ds[i], x, s), "variable", i); s += ds[i].bits; } REQUIRE(so.evaluate(x) == sum, "sum", so.evaluate(x) << " instead of " << sum); } }
  else { std::vector<CR> r; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, 2)); ds.push_back(gen_dom(g, 2)); r.push_back(CR(rep_d(ds[2 * i]), rep_d(ds[2 * i + 1]))); total += r[i].size(); } MoRec<C> h(n, no); mo::MultivariateFunctionAdapter<MoRec<C>, CR, SquaredMagnitude<double>> am(&h, r); REQUIRE(am.get_bv_size() == total, "size", total);
    for (int t = 0; t < 4; t++) { BV x = g.bits(total); for (auto& v : h.out) v = C(double(g.range(-9, 9)), double(g.range(-9, 9))); mo::value_t v(no); am.evaluate(x, v); for (int i = 0; i < no; i++) REQUIRE(v[i] == std::norm(h.out[i]), "objective", i); int s = 0; for (int i = 0; i < n; i++) { C w(decode(ds[2 * i], x, s), decode(ds[2 * i + 1], x, s + ds[2 * i].bits)); REQUIRE(h.got[i] == w, "variable", i); s += r[i].size(); } } }
}
struct UV { BV b; std::vector<int> i; std::vector<double> f; std::vector<C> c; std::vector<int> k; std::vector<hnco::permutation_t> p; };
struct URec: UniversalFunction { UV got, desc; double out = 0; double evaluate(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<C>& c, const std::vector<int>& k, const std::vector<hnco::permutation_t>& p) override { got = {b, i, f, c, k, p}; return out; } void describe(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<C>& c, const std::vector<int>& k, const std::vector<hnco::permutation_t>& p, std::ostream&) override { desc = {b, i, f, c, k, p}; } };
// both forms of the last parameter, so that either declaration of the interface is overridden
struct MURec: mo::UniversalFunction { UV got; int no; mo::value_t out; MURec(int n): no(n), out(n) {} int get_output_size() const override { return no; }
  void evaluate(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<C>& c, const std::vector<int>& k, const std::vector<hnco::permutation_t>& p, mo::value_t& v) { got = {b, i, f, c, k, p}; v = out; }
  void evaluate(const BV& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<C>& c, const std::vector<int>& k, const std::vector<hnco::permutation_t> p, mo::value_t& v) { got = {b, i, f, c, k, p}; v = out; } };
PBT(universal, 15000, 150000) {
  seed(g); int big = g.chance(1, 40) ? 12 : 1, nb = g.small(0, 5) * big * big, ni = g.small(0, 3) * big, nf = g.small(0, 3) * big, nc = g.small(0, 2) * big, nk = g.small(0, 3) * big, np = g.small(0, 2) * big; std::vector<Dom> di, df, dc; std::vector<IR> ri; std::vector<DR> rf; std::vector<CR> rc; std::vector<LinearCategoricalRepresentation> rk; std::vector<PermutationRepresentation> rp; std::vector<int> ks, pn, pe; int total = nb;
  for (int i = 0; i < ni; i++) { di.push_back(gen_dom(g, 0)); ri.push_back(rep_i(di[i])); total += di[i].bits; } for (int i = 0; i < nf; i++) { df.push_back(gen_dom(g, 2)); rf.push_back(rep_d(df[i])); total += df[i].bits; }
  for (int i = 0; i < nc; i++) { dc.push_back(gen_dom(g, 2)); dc.push_back(gen_dom(g, 2)); rc.push_back(CR(rep_d(dc[2 * i]), rep_d(dc[2 * i + 1]))); total += dc[2 * i].bits + dc[2 * i + 1].bits; }
  for (int i = 0; i < nk; i++) { ks.push_back(g.irange(2, 9)); rk.push_back(LinearCategoricalRepresentation(ks[i])); total += rk[i].size(); } for (int i = 0; i < np; i++) { pn.push_back(g.irange(2, 6)); int add = g.irange(1, 4); pe.push_back(bitlen(pn[i] - 1) + add); rp.push_back(PermutationRepresentation(pn[i], add)); total += pn[i] * pe[i]; }
  if (total == 0) throw pbt::Discard{}; g.note() << nb << " booleans " << ni << " integers " << nf << " floats " << nc << " complex " << nk << " categories " << np << " permutations, " << total << " bits"; g.nontrivial((nb > 0) + (ni > 0) + (nf > 0) + (nc > 0) + (nk > 0) + (np > 0) > 1);
  URec f; UniversalFunctionAdapter ad(&f, nb, ri, rf, rc, rk, rp); int no = g.irange(1, 3); MURec h(no); mo::UniversalFunctionAdapter am(&h, nb, ri, rf, rc, rk, rp); REQUIRE(ad.get_bv_size() == total && am.get_bv_size() == total, "size", ad.get_bv_size() << " " << am.get_bv_size() << " instead of " << total); REQUIRE(am.get_output_size() == no, "output-size", "");
  auto same = [&](const BV& x, const UV& u, const char *who) { int s = 0; REQUIRE(int(u.b.size()) == nb && int(u.i.size()) == ni && int(u.f.size()) == nf && int(u.c.size()) == nc && int(u.k.size()) == nk && int(u.p.size()) == np, "numbers-of-variables", who); for (int i = 0; i < nb; i++) REQUIRE(u.b[i] == x[s + i], "boolean", who << " " << i); s += nb;
    for (int i = 0; i < ni; i++) { REQUIRE(u.i[i] == decode(di[i], x, s), "integer", who << " " << i << ": " << u.i[i]); s += di[i].bits; } for (int i = 0; i < nf; i++) { REQUIRE(u.f[i] == decode(df[i], x, s), "float", who << " " << i); s += df[i].bits; }
    for (int i = 0; i < nc; i++) { C w(decode(dc[2 * i], x, s), decode(dc[2 * i + 1], x, s + dc[2 * i].bits)); REQUIRE(u.c[i] == w, "complex", who << " " << i); s += dc[2 * i].bits + dc[2 * i + 1].bits; }
    for (int i = 0; i < nk; i++) { LinearCategoricalRepresentation r(ks[i]); BV sl(x.begin() + s, x.begin() + s + r.size()); REQUIRE(u.k[i] == int(r.unpack(sl, 0)), "category", who << " " << i); s += r.size(); }
    for (int i = 0; i < np; i++) { std::vector<unsigned> key(pn[i], 0); for (int j = 0; j < pn[i]; j++) for (int b = 0; b < pe[i]; b++) key[j] |= unsigned(x[s + j * pe[i] + b]) << b; auto q = u.p[i]; REQUIRE(int(q.size()) == pn[i], "permutation", ""); auto o = q; std::sort(o.begin(), o.end()); for (int j = 0; j < pn[i]; j++) REQUIRE(o[j] == j, "permutation", pbt::showv(q)); for (int j = 0; j + 1 < pn[i]; j++) REQUIRE(key[q[j]] <= key[q[j + 1]], "permutation", "not sorted by key"); s += pn[i] * pe[i]; } };
  for (int t = 0; t < 3; t++) { BV x = g.bits(total); f.out = g.weight(); for (auto& v : h.out) v = g.weight(); REQUIRE(ad.evaluate(x) == f.out, "value", ""); same(x, f.got, "single"); mo::value_t v(no); am.evaluate(x, v); REQUIRE(v == h.out, "values", ""); same(x, h.got, "multi"); BV y = g.bits(total); std::ostringstream o; ad.describe(y, o); same(y, f.desc, "describe"); }
}
struct PRec { int n; hnco::permutation_t got; double out = 0; int get_num_elements() const { return n; } double evaluate(const hnco::permutation_t& p) { got = p; return out; } void display(std::ostream&) const {} void describe(const hnco::permutation_t&, std::ostream&) {} };
PBT(permutation_adapter, 8000, 80000) {
  seed(g); int n = g.irange(1, 12), add = g.irange(1, 6), e = bitlen(n - 1) + add; PRec f; f.n = n; PermutationFunctionAdapter<PRec> ad(&f, PermutationRepresentation(n, add)); g.note() << n << "*" << e; g.nontrivial(n > 1); REQUIRE(ad.get_bv_size() == n * e, "size", ad.get_bv_size());
  for (int t = 0; t < 4; t++) { BV x = g.bits(n * e); f.out = g.weight(); REQUIRE(ad.evaluate(x) == f.out, "value", ""); std::vector<unsigned> key(n, 0); for (int j = 0; j < n; j++) for (int b = 0; b < e; b++) key[j] |= unsigned(x[j * e + b]) << b; auto o = f.got; std::sort(o.begin(), o.end()); REQUIRE(int(o.size()) == n, "permutation", ""); for (int j = 0; j < n; j++) REQUIRE(o[j] == j, "permutation", ""); for (int j = 0; j + 1 < n; j++) REQUIRE(key[f.got[j]] <= key[f.got[j + 1]], "permutation", ""); }
  PRec h; h.n = n + g.irange(1, 5); bool t = false; try { PermutationFunctionAdapter<PRec> bad(&h, PermutationRepresentation(n, add)); } catch (std::runtime_error&) { t = true; } REQUIRE(t, "size-mismatch-accepted", "");
}
static const std::vector<std::string> NAMES = {"x", "y", "z", "x1", "x2", "x10", "X", "foo", "foo_bar", "a9", "i", "var"};
static std::vector<std::string> gen_names(Gen& g, int n) { auto p = gen_perm(g, NAMES.size()); std::vector<std::string> v; for (int i = 0; i < n; i++) v.push_back(NAMES[p[i]]); return v; }
// Variables of the expression that occur, in alphabetical order
static std::vector<int> order(const ex::Node& e, const std::vector<std::string>& names) { std::vector<int> o; for (size_t i = 0; i < names.size(); i++) if (ex::uses(e, i)) o.push_back(i); std::sort(o.begin(), o.end(), [&](int a, int b) { return names[a] < names[b]; }); return o; }
PBT(expression_double, 30000, 300000) {
  int n = g.irange(1, 5); auto names = gen_names(g, n); std::vector<int> iv, rv; for (int i = 0; i < n; i++) (g.flag() ? iv : rv).push_back(i); auto e = g.chance(1, 3) ? ex::gen_int(g, iv, g.irange(1, 4), false) : ex::gen_real(g, iv, rv, g.irange(1, 4)); std::string t = ex::text(g, *e, names, g.flag(), false); g.note() << t; auto o = order(*e, names); g.nontrivial(o.size() > 0);
  ParsedMultivariateFunction<FunctionParser> f(t); f.add_constant("pi", M_PI); f.add_constant("e", M_E); try { f.parse(); } catch (std::runtime_error& x) { FAIL("rejected", t << ": " << x.what()); } std::vector<std::string> want; for (int i : o) want.push_back(names[i]); REQUIRE(f.get_variable_names() == want, "variables", pbt::showv(f.get_variable_names()) << " instead of " << pbt::showv(want)); REQUIRE(f.get_num_variables() == int(o.size()), "number-of-variables", f.get_num_variables()); FunctionParser plain; plain.AddConstant("pi", M_PI); plain.AddConstant("e", M_E); { std::string vs; for (auto& w : want) vs += (vs.empty() ? "" : ",") + w; REQUIRE(plain.Parse(t, vs) == -1, "rejected", t << ": " << plain.ErrorMsg()); }
  for (int r = 0; r < 6; r++) { std::vector<double> x(n), y; for (int i : iv) x[i] = double(g.range(-9, 9)); for (int i : rv) x[i] = g.flag() ? g.real(-5, 5) : double(g.range(-20, 20)) / 4; for (int i : o) y.push_back(x[i]); bool ok = true; ex::Val v = ex::eval(*e, x, ok); double got = f.evaluate(y); if (!ok) continue; REQUIRE(std::fabs(plain.Eval(y.data()) - v.v) <= ex::tol(v), "value-not-optimized", t << " at " << pbt::showv(want) << "=" << pbt::showv(y) << ": " << plain.Eval(y.data()) << " instead of " << v.v); REQUIRE(std::fabs(got - v.v) <= ex::tol(v), "value", t << " at " << pbt::showv(want) << "=" << pbt::showv(y) << ": " << got << " instead of " << v.v); }
}
PBT(expression_long, 80000, 500000) {
  int n = g.irange(1, 5); auto names = gen_names(g, n); std::vector<int> iv; for (int i = 0; i < n; i++) iv.push_back(i); auto e = ex::gen_int(g, iv, g.irange(1, 4), true); std::string t = ex::text(g, *e, names, g.flag(), true); g.note() << t; auto o = order(*e, names); g.nontrivial(o.size() > 0);
  ParsedMultivariateFunction<FunctionParser_li> f(t); try { f.parse(); } catch (std::runtime_error& x) { FAIL("rejected", t << ": " << x.what()); } std::vector<std::string> want; for (int i : o) want.push_back(names[i]); REQUIRE(f.get_variable_names() == want, "variables", pbt::showv(f.get_variable_names()));
  for (int r = 0; r < 6; r++) { std::vector<long> x(n), y; for (auto& v : x) v = g.range(-12, 12); for (int i : o) y.push_back(x[i]); bool ok = true; long v = ex::leval(*e, x, ok); long got = f.evaluate(y); if (!ok) continue; REQUIRE(got == v, "value", t << " at " << pbt::showv(want) << "=" << pbt::showv(y) << ": " << got << " instead of " << v); }
}
PBT(expression_complex, 15000, 150000) {
  int n = g.irange(1, 4); auto names = gen_names(g, n); auto e = ex::gen_complex(g, n, g.irange(1, 4)); std::string t = ex::text(g, *e, names, g.flag(), false); g.note() << t; auto o = order(*e, names); g.nontrivial(o.size() > 0); ParsedMultivariateFunction<FunctionParser_cd> f(t); f.add_constant("pi", M_PI); f.add_constant("e", M_E); try { f.parse(); } catch (std::runtime_error& x) { FAIL("rejected", t << ": " << x.what()); } REQUIRE(f.get_num_variables() == int(o.size()), "number-of-variables", f.get_num_variables());
  for (int r = 0; r < 5; r++) { std::vector<C> x(n), y; for (auto& v : x) v = C(g.real(-3, 3), g.real(-3, 3)); for (int i : o) y.push_back(x[i]); bool ok = true; ex::CVal v = ex::ceval(*e, x, ok); C got = f.evaluate(y); if (!ok) continue; REQUIRE(std::abs(got - v.v) <= 1e-10 * v.m + 1e-12, "value", t << ": " << got << " instead of " << v.v); }
}
PBT(expression_bad, 10000, 100000) { // not an expression: an error, never a crash; if accepted, it evaluates
  std::string t; if (g.flag()) { int n = g.irange(1, 3); auto names = gen_names(g, n); std::vector<int> iv; for (int i = 0; i < n; i++) iv.push_back(i); t = ex::text(g, *ex::gen_int(g, iv, 3, false), names, g.flag(), false); int m = g.irange(1, 3); for (int i = 0; i < m && !t.empty(); i++) { size_t p = g.below(t.size()); switch (g.below(3)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, 1, g.pick(std::vector<char>{'(', ')', '+', '^', ',', '1', 'x', ' ', '.', ';'})); break; default: t = t.substr(0, p); } } } else { int k = g.irange(0, 12); for (int i = 0; i < k; i++) t += g.pick(std::vector<std::string>{"(", ")", "+", "-", "*", "/", "^", "x", "y", "sin", "if", ",", "1", "2.5", " ", "max", "%", "&", "e", "1e", "!", "="}); }
  g.note() << t; g.nontrivial(!t.empty()); bool acc = true; ParsedMultivariateFunction<FunctionParser> f(t); f.add_constant("e", M_E); try { f.parse(); } catch (std::runtime_error&) { acc = false; } g.label(acc ? "accepted" : "rejected"); if (acc) { std::vector<double> x(f.get_num_variables(), 0.5); f.evaluate(x); }
}
PBT(expression_list, 12000, 120000) { // several objectives: each sub-expression on its own variables
  int no = g.irange(1, 4), n = g.irange(1, 5); auto names = gen_names(g, n); std::vector<int> iv; for (int i = 0; i < n; i++) iv.push_back(i); std::vector<ex::NP> es; std::string t; std::set<int> used; for (int i = 0; i < no; i++) { es.push_back(ex::gen_int(g, iv, g.irange(1, 3), false)); t += (i ? (g.flag() ? " :: " : "::") : "") + ex::text(g, *es[i], names, g.flag(), false); for (int v : order(*es[i], names)) used.insert(v); } std::vector<int> o(used.begin(), used.end()); std::sort(o.begin(), o.end(), [&](int a, int b) { return names[a] < names[b]; }); g.note() << t; g.nontrivial(no > 1 && o.size() > 1);
  mo::ParsedMultivariateFunction<FunctionParser> f(t); f.add_constant("pi", M_PI); f.add_constant("e", M_E); try { f.parse(); } catch (std::runtime_error& x) { FAIL("rejected", t << ": " << x.what()); } std::vector<std::string> want; for (int i : o) want.push_back(names[i]); REQUIRE(f.get_variable_names() == want, "variables", pbt::showv(f.get_variable_names()) << " instead of " << pbt::showv(want)); REQUIRE(f.get_output_size() == no && f.get_num_variables() == int(o.size()), "sizes", f.get_output_size());
  for (int r = 0; r < 5; r++) { std::vector<double> x(n), y; for (auto& v : x) v = double(g.range(-9, 9)); for (int i : o) y.push_back(x[i]); std::vector<double> vals(no, 77); f.evaluate(y, vals); for (int k = 0; k < no; k++) { bool ok = true; ex::Val v = ex::eval(*es[k], x, ok); if (ok) REQUIRE(std::fabs(vals[k] - v.v) <= ex::tol(v), "value", "objective " << k << " of " << t << ": " << vals[k] << " instead of " << v.v); } }
}
PBT(expression_list_long, 8000, 80000) {
  int no = g.irange(1, 4), n = g.irange(1, 5); auto names = gen_names(g, n); std::vector<int> iv; for (int i = 0; i < n; i++) iv.push_back(i); std::vector<ex::NP> es; std::string t; std::set<int> used; for (int i = 0; i < no; i++) { es.push_back(ex::gen_int(g, iv, g.irange(1, 4), true)); t += (i ? "::" : "") + ex::text(g, *es[i], names, g.flag(), true); for (int v : order(*es[i], names)) used.insert(v); } std::vector<int> o(used.begin(), used.end()); std::sort(o.begin(), o.end(), [&](int a, int b) { return names[a] < names[b]; }); g.note() << t; g.nontrivial(no > 1 && o.size() > 1);
  mo::ParsedMultivariateFunction<FunctionParser_li> f(t); try { f.parse(); } catch (std::runtime_error& x) { FAIL("rejected", t << ": " << x.what()); } REQUIRE(f.get_output_size() == no && f.get_num_variables() == int(o.size()), "sizes", f.get_output_size());
  for (int r = 0; r < 5; r++) { std::vector<long> x(n), y; for (auto& v : x) v = g.range(-12, 12); for (int i : o) y.push_back(x[i]); std::vector<long> vals(no, 77); f.evaluate(y, vals); for (int k = 0; k < no; k++) { bool ok = true; long v = ex::leval(*es[k], x, ok); if (ok) REQUIRE(vals[k] == v, "value", "objective " << k << " of " << t << ": " << vals[k] << " instead of " << v); } }
}
PBT(split, 8000, 80000) { // the pieces joined by the delimiter give the text back, and none contains it
  std::string d = g.pick(std::vector<std::string>{",", ";", "::", ", ", "aba", "=="}), t; int m = g.small(0, 25); for (int i = 0; i < m; i++) { if (g.chance(1, 4)) t += d; else t += g.pick(std::vector<std::string>{"a", "b", ",", ";", ":", "=", " ", "x"}); } g.note() << '"' << t << "\" by \"" << d << '"'; g.nontrivial(t.find(d) != std::string::npos);
  auto v = app::split_string(t, d); REQUIRE(!v.empty(), "empty", ""); std::string j; for (size_t i = 0; i < v.size(); i++) { j += (i ? d : "") + v[i]; REQUIRE(v[i].find(d) == std::string::npos, "delimiter", v[i]); } REQUIRE(j == t, "joined", j);
}
// Options as the factories see them
struct Opt {
  std::string expr, reps, irep = "int(-10, 10)", lrep = "long(-100, 100)", drep = "double(0, 1, precision = 1e-3)"; bool from_file = false, wp = false, ws = false; double p = 0; int s = 0; std::string path, rpath;
  bool with_fp_expression() const { return !from_file; } std::string get_fp_expression() const { return expr; } std::string get_path() const { return path; } bool with_fp_representations() const { return !from_file; } std::string get_fp_representations() const { return reps; } std::string get_fp_representations_path() const { return rpath; }
  bool with_fp_default_double_precision() const { return wp; } double get_fp_default_double_precision() const { return p; } bool with_fp_default_double_size() const { return ws; } int get_fp_default_double_size() const { return s; } std::string get_fp_default_int_rep() const { return irep; } std::string get_fp_default_long_rep() const { return lrep; } std::string get_fp_default_double_rep() const { return drep; }
};
static std::string ws(Gen& g) { return g.pick(std::vector<std::string>{"", "", "", " ", "  ", "\t", "\n"}); }
static std::string numtext(Gen& g, double v) { std::ostringstream o; o.precision(17); if (v != 0 && g.chance(1, 5)) o << std::scientific; o << v; return (v > 0 && g.chance(1, 6) ? "+" : "") + o.str(); }
// One declaration; decl(d) describes d exactly
static std::string decl(Gen& g, Dom& d, const Opt& opt) {
  std::string s; auto sep = [&]() { return ws(g) + "," + ws(g); };
  switch (d.kind) {
  case 0: case 1: s = std::string(d.kind ? "long" : "int") + ws(g) + "(" + ws(g) + std::to_string(d.a) + sep() + std::to_string(d.b) + ws(g) + ")"; break;
  case 2: s = "double" + ws(g) + "(" + ws(g) + numtext(g, d.lo) + sep() + numtext(g, d.hi); { double len = d.hi - d.lo; if ((opt.wp || opt.ws) && g.chance(1, 3)) d.bits = opt.wp ? std::max(1, int(std::ceil(std::log2(len / opt.p)))) : opt.s; else if (g.flag()) s += sep() + "size" + ws(g) + "=" + ws(g) + std::to_string(d.bits); else s += sep() + "precision" + ws(g) + "=" + ws(g) + numtext(g, std::ldexp(len, -d.bits) * 1.3); } s += ws(g) + ")"; break;
  default: s = "set" + ws(g) + "("; for (size_t i = 0; i < d.set.size(); i++) s += (i ? sep() : ws(g)) + numtext(g, d.set[i]); s += ws(g) + ")";
  }
  return ws(g) + s + ws(g);
}
static void set_defaults(Gen& g, Opt& o) { switch (g.below(3)) { case 0: o.wp = true; o.p = std::ldexp(1.3, -g.irange(1, 8)); break; case 1: o.ws = true; o.s = g.irange(1, 9); break; default: if (g.chance(1, 3)) { o.wp = o.ws = true; o.p = std::ldexp(1.3, -g.irange(1, 8)); o.s = g.irange(1, 9); } } }
static bool same_rep(Gen& g, app::param_var_t v, const Dom& d) { // the representation built is d
  if (v.index() != size_t(d.kind)) return false;
  return std::visit([&](auto p) { auto r = p.to_rep(); REQUIRE(r.size() == d.bits, "bits", r.size() << " instead of " << d.bits); for (int t = 0; t < 6; t++) { BV x = t == 0 ? BV(d.bits, 0) : t == 1 ? BV(d.bits, 1) : g.bits(d.bits); double got = double(r.unpack(x, 0)), want = decode(d, x, 0); REQUIRE(pbt::close(got, want, 1, 1e-12), "decoded", got << " instead of " << want); } return true; }, v);
}
PBT(specification, 20000, 200000) { // well-formed text builds exactly what it says
  Opt o; set_defaults(g, o); int n = g.small(1, 6); auto names = gen_names(g, n); std::vector<Dom> ds; std::string t; for (int i = 0; i < n; i++) { ds.push_back(gen_dom(g, g.below(4))); t += (i ? g.chance(1, 6) ? ";;" : ";" : g.chance(1, 8) ? ";" : "") + ws(g) + names[i] + ws(g) + ":" + decl(g, ds[i], o); } if (g.chance(1, 4)) t += ";"; g.note() << t; g.nontrivial(n > 1);
  app::env_t env; try { env = app::parse_representations<Opt>(t, o); } catch (std::exception& x) { FAIL("rejected", t << ": " << x.what()); } REQUIRE(int(env.size()) == n, "declarations", env.size() << " instead of " << n); for (int i = 0; i < n; i++) { REQUIRE(env.count(names[i]), "missing", names[i]); REQUIRE(same_rep(g, env[names[i]], ds[i]), "type", names[i] << " in " << t); }
}
PBT(specification_bad, 30000, 300000) { // anything else: an error or a usable representation
  Opt o; set_defaults(g, o); std::string t; if (g.flag()) { Dom d = gen_dom(g, g.below(4)); t = "x:" + decl(g, d, o); int m = g.irange(1, 3); for (int i = 0; i < m && !t.empty(); i++) { size_t p = g.below(t.size()); switch (g.below(4)) { case 0: t.erase(p, 1); break; case 1: t.insert(p, g.pick(std::vector<std::string>{"(", ")", ",", ";", ":", "-", "9", "e9", "=", " ", "x"})); break; case 2: t = t.substr(0, p); break; default: t[p] = g.pick(std::vector<char>{'0', '-', ',', ')', 'a'}); } } }
  else { auto v = [&]() { return g.pick(std::vector<std::string>{"0", "1", "-1", "5", "1e400", "nan", "inf", "-inf", "99999999999", "-9223372036854775808", "9223372036854775807", "2147483647", "-2147483648", "1e-300", "", "abc", "0x10", "-0.0", "1e308", "-1e308", "3.7"}); }; switch (g.below(5)) { case 0: t = "x:int(" + v() + "," + v() + ")"; break; case 1: t = "x:long(" + v() + "," + v() + ")"; break; case 2: t = "x:double(" + v() + "," + v() + ",size=" + g.pick(std::vector<std::string>{"0", "-1", "1", "20", "abc", "", "70"}) + ")"; break; case 3: t = "x:double(" + v() + "," + v() + (g.flag() ? ",precision=" + v() : "") + ")"; break; default: t = "x:set("; { int k = g.irange(0, 3); for (int i = 0; i < k; i++) t += (i ? "," : "") + v(); } t += ")"; } }
  g.note() << t; g.nontrivial(t.size() > 4); app::env_t env; try { env = app::parse_representations<Opt>(t, o); for (auto& e : env) std::visit([&](auto p) { auto r = p.to_rep(); int n = r.size(); REQUIRE(n >= 1, "no-bits", t); if (n > 100000) return; for (int k = 0; k < 3; k++) { BV x = k == 0 ? BV(n, 0) : k == 1 ? BV(n, 1) : g.bits(n); double v = double(r.unpack(x, 0)); REQUIRE(!std::isnan(v), "nan", t); } }, e.second); g.label("accepted"); } catch (std::runtime_error&) { g.label("rejected"); }
}
PBT(made, 25000, 250000) { // text to function: expression + specifications + defaults
  Opt o; set_defaults(g, o); int kind = g.below(3) == 0 ? 3 : g.below(3); int n = g.irange(1, 5); auto names = gen_names(g, n); std::vector<int> iv, rv; std::vector<Dom> ds(n); Dom di = gen_dom(g, 0), dl = gen_dom(g, 1), dd = gen_dom(g, 2); o.irep = decl(g, di, o); o.lrep = decl(g, dl, o); o.drep = decl(g, dd, o); // defaults; kind 0 int 1 long 2 double 3 mixed
  std::string reps; for (int i = 0; i < n; i++) { int mode = g.below(5); Dom def = kind == 0 ? di : kind == 1 ? dl : dd; if (mode == 0) ds[i] = def; else { int k = kind == 3 ? g.pick(std::vector<int>{1, 2, 3, 0}) : mode == 1 ? g.below(4) : kind; Dom d = gen_dom(g, k); reps += (reps.empty() ? "" : ";") + names[i] + ":" + decl(g, d, o); ds[i] = (kind == 3 ? k != 0 : k == kind) ? d : def; } (ds[i].kind <= 1 ? iv : rv).push_back(i); }
  if (g.chance(1, 4)) { Dom d = gen_dom(g, g.below(4)); reps += (reps.empty() ? "" : ";") + std::string("unused:") + decl(g, d, o); }
  auto e = kind == 1 ? ex::gen_int(g, iv, g.irange(1, 3), true) : g.flag() ? ex::gen_int(g, iv, g.irange(1, 3), false) : ex::gen_real(g, iv, rv, g.irange(1, 3)); o.expr = ex::text(g, *e, names, g.flag(), kind == 1); o.reps = reps; auto ord = order(*e, names); if (ord.empty()) throw pbt::Discard{}; g.note() << o.expr << " | " << reps; g.nontrivial(ord.size() > 1); g.label("kind" + std::to_string(kind));
  if (g.chance(1, 4)) { o.from_file = true; o.path = tmpfile_path("expr"); o.rpath = tmpfile_path("reps"); spit(o.path, o.expr); spit(o.rpath, o.reps); }
  std::shared_ptr<Function> f; bool ab = g.flag(); try {
    if (kind == 0) { if (ab) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, IR, AbsoluteValue<double>>>(o)); else f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, IR, ScalarToDouble<double>>>(o)); }
    else if (kind == 1) { if (ab) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser_li>, LR, AbsoluteValue<long>>>(o)); else f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser_li>, LR, ScalarToDouble<long>>>(o)); }
    else if (kind == 2) { if (ab) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, DR, AbsoluteValue<double>>>(o)); else f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, DR, ScalarToDouble<double>>>(o)); }
    else { if (ab) f.reset(app::make_mixed_type_multivariate_function_adapter<Opt, MixedRepresentationMultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, app::rep_var_t, AbsoluteValue<double>>>(o)); else f.reset(app::make_mixed_type_multivariate_function_adapter<Opt, MixedRepresentationMultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, app::rep_var_t, ScalarToDouble<double>>>(o)); }
  } catch (std::exception& x) { FAIL("rejected", o.expr << " | " << reps << ": " << x.what()); }
  int total = 0; for (int i : ord) total += ds[i].bits; REQUIRE(f->get_bv_size() == total, "size", f->get_bv_size() << " instead of " << total);
  for (int r = 0; r < 5; r++) { BV x = g.bits(total); std::vector<double> v(n, 0); int s = 0; for (int i : ord) { v[i] = decode(ds[i], x, s); s += ds[i].bits; } bool ok = true; double want, tl = 0; if (kind == 1) { std::vector<long> lv(v.begin(), v.end()); want = double(ex::leval(*e, lv, ok)); } else { ex::Val w = ex::eval(*e, v, ok); want = w.v; tl = ex::tol(w) + 1e-9 * w.m; } if (!ok) continue; if (ab) want = std::fabs(want); double got = f->evaluate(x); REQUIRE(std::fabs(got - want) <= tl, "value", o.expr << " | " << reps << " at " << pbt::show(x) << ": " << got << " instead of " << want);
    std::ostringstream d; f->describe(x, d); std::istringstream in(d.str()); std::string nm, eq, val; for (int i : ord) { REQUIRE(bool(in >> nm >> eq >> val) && nm == names[i] && eq == "=", "described", d.str()); REQUIRE(std::fabs(std::atof(val.c_str()) - v[i]) <= 1e-4 * (1 + std::fabs(v[i])), "described", nm << " = " << val << ", decoded " << v[i]); } }
}
PBT(made_complex, 8000, 80000) {
  Opt o; set_defaults(g, o); int n = g.irange(1, 3); auto names = gen_names(g, n); std::vector<Dom> ds(2 * n); Dom dd = gen_dom(g, 2); o.drep = decl(g, dd, o); std::string reps; for (int i = 0; i < 2 * n; i++) { if (g.chance(1, 5)) ds[i] = dd; else { ds[i] = gen_dom(g, 2); reps += (reps.empty() ? "" : ";") + names[i / 2] + (i % 2 ? "_im" : "_re") + ":" + decl(g, ds[i], o); } }
  auto e = ex::gen_complex(g, n, g.irange(1, 3)); o.expr = ex::text(g, *e, names, g.flag(), false); o.reps = reps; auto ord = order(*e, names); if (ord.empty()) throw pbt::Discard{}; g.note() << o.expr << " | " << reps; g.nontrivial(ord.size() > 0); typedef MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser_cd>, CR, SquaredMagnitude<double>> A; std::shared_ptr<Function> f; try { f.reset(app::make_multivariate_function_adapter_complex<Opt, A>(o)); } catch (std::exception& x) { FAIL("rejected", o.expr << " | " << reps << ": " << x.what()); }
  int total = 0; for (int i : ord) total += ds[2 * i].bits + ds[2 * i + 1].bits; REQUIRE(f->get_bv_size() == total, "size", f->get_bv_size() << " instead of " << total);
  for (int r = 0; r < 5; r++) { BV x = g.bits(total); std::vector<C> v(n); int s = 0; for (int i : ord) { v[i] = C(decode(ds[2 * i], x, s), decode(ds[2 * i + 1], x, s + ds[2 * i].bits)); s += ds[2 * i].bits + ds[2 * i + 1].bits; } bool ok = true; ex::CVal w = ex::ceval(*e, v, ok); if (!ok) continue; double got = f->evaluate(x); REQUIRE(std::fabs(got - std::norm(w.v)) <= 1e-9 * w.m * w.m + 1e-11, "value", o.expr << ": " << got << " instead of " << std::norm(w.v)); }
}

PBT(made_bad, 6000, 60000) { // a default representation of the wrong type: an error the applications can report
  Opt o; set_defaults(g, o); int kind = g.below(4); Dom a = gen_dom(g, g.below(4)), b = gen_dom(g, g.below(4)), c = gen_dom(g, g.below(4)); o.irep = decl(g, a, o); o.lrep = decl(g, b, o); o.drep = decl(g, c, o); o.expr = "x+y"; if (g.flag()) { Dom d = gen_dom(g, g.below(4)); o.reps = "x:" + decl(g, d, o); } g.note() << kind << ": " << o.irep << " | " << o.lrep << " | " << o.drep << " | " << o.reps;
  bool good = kind == 0 ? a.kind == 0 : kind == 1 ? b.kind == 1 : kind == 2 ? c.kind == 2 : b.kind == 1 && c.kind == 2; g.nontrivial(!good); std::shared_ptr<Function> f; bool err = false; try {
    if (kind == 0) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, IR, ScalarToDouble<double>>>(o));
    else if (kind == 1) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser_li>, LR, ScalarToDouble<long>>>(o));
    else if (kind == 2) f.reset(app::make_multivariate_function_adapter<Opt, MultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, DR, ScalarToDouble<double>>>(o));
    else f.reset(app::make_mixed_type_multivariate_function_adapter<Opt, MixedRepresentationMultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, app::rep_var_t, ScalarToDouble<double>>>(o));
  } catch (std::runtime_error&) { err = true; } catch (std::exception& x) { FAIL("exception", "not a std::runtime_error: " << x.what()); }
  if (good) REQUIRE(!err, "rejected", ""); if (!err) { REQUIRE(f->get_bv_size() >= 2, "size", f->get_bv_size()); for (int k = 0; k < 3; k++) REQUIRE(!std::isnan(f->evaluate(g.bits(f->get_bv_size()))), "nan", ""); }
}
