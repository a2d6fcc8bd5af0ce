// Generated arithmetic expressions with a reference evaluator.
#ifndef VERIF_EXPR_HH
#define VERIF_EXPR_HH
#include "common.hh"
#include <complex>
#include <memory>
namespace ex {
struct Node; typedef std::shared_ptr<Node> NP;
enum Op { CONST, VAR, PI_, E_, ADD, SUB, MUL, DIV, MOD, NEG, POW, ABS, MIN_, MAX_, SIN, COS, EXP, LOG, SQRT, ATAN, TANH, FLOOR, CEIL, TRUNC, IF, LT, LE, GT, GE, EQ, NE, AND, OR, NOT, SINH, COSH, ASIN, ACOS, LOG2, LOG10, EXP2, HYPOT, ATAN2, CBRT, TAN };
struct Node { Op op; double c = 0; int var = -1; std::vector<NP> k; };
inline NP mk(Op o, std::vector<NP> k = {}) { auto n = std::make_shared<Node>(); n->op = o; n->k = k; return n; }
inline NP con(double c) { auto n = mk(CONST); n->c = c; return n; }
inline NP var(int i) { auto n = mk(VAR); n->var = i; return n; }
struct Val { double v = 0, m = 0, e = 0; }; // value, magnitude of its terms, error of the terms
const double u = 4e-16;
// Reference in double arithmetic; ok becomes false where the result is not meaningful (overflow, undefined)
inline Val eval(const Node& n, const std::vector<double>& x, bool& ok) {
  std::vector<Val> a; if (n.op != IF) for (auto& k : n.k) a.push_back(eval(*k, x, ok)); Val r;
  auto smooth = [&](double v, double d) { r.v = v; r.e = std::fabs(d) * (a[0].e + 100 * u * a[0].m) + u * std::fabs(v); r.m = std::fabs(v); };
  switch (n.op) {
  case CONST: r.v = n.c; r.m = std::fabs(r.v); break;
  case VAR: r.v = x[n.var]; r.m = std::fabs(r.v); break;
  case PI_: r.v = r.m = M_PI; break; case E_: r.v = r.m = M_E; break;
  case ADD: r.v = a[0].v + a[1].v; r.m = a[0].m + a[1].m; r.e = a[0].e + a[1].e; break;
  case SUB: r.v = a[0].v - a[1].v; r.m = a[0].m + a[1].m; r.e = a[0].e + a[1].e; break;
  case MUL: r.v = a[0].v * a[1].v; r.m = a[0].m * a[1].m; r.e = a[0].e * a[1].m + a[0].m * a[1].e; break;
  case DIV: { double d = std::fabs(a[1].v); r.v = a[0].v / a[1].v; r.m = a[0].m * a[1].m / (d * d); r.e = (a[0].e + a[0].m * (a[1].e + u * a[1].m) / d) / d; if (d < 1e-6) ok = false; break; }
  case MOD: r.v = std::fmod(a[0].v, a[1].v); r.m = std::fabs(r.v); break;
  case NEG: r = a[0]; r.v = -r.v; break;
  case POW: { int p = int(n.k[1]->c); r.v = 1; r.m = 1; r.e = 0; for (int i = 0; i < p; i++) { r.e = r.e * a[0].m + r.m * a[0].e; r.v *= a[0].v; r.m *= a[0].m; } break; }
  case ABS: r = a[0]; r.v = std::fabs(r.v); break;
  case MIN_: case MAX_: r.v = n.op == MIN_ ? std::min(a[0].v, a[1].v) : std::max(a[0].v, a[1].v); r.m = std::max(a[0].m, a[1].m); r.e = std::max(a[0].e, a[1].e); break;
  case SIN: smooth(std::sin(a[0].v), 1); if (std::fabs(a[0].v) > 1e6) ok = false; break;
  case COS: smooth(std::cos(a[0].v), 1); if (std::fabs(a[0].v) > 1e6) ok = false; break;
  case EXP: smooth(std::exp(a[0].v), std::exp(a[0].v)); if (std::fabs(a[0].v) > 50) ok = false; break;
  case LOG: smooth(std::log(a[0].v), 1 / a[0].v); if (a[0].v < 0.5) ok = false; break;
  case SQRT: smooth(std::sqrt(a[0].v), 0.5 / std::sqrt(std::max(a[0].v, 1e-3))); if (a[0].v < 0.5) ok = false; break;
  case ATAN: smooth(std::atan(a[0].v), 1); break;
  case TANH: smooth(std::tanh(a[0].v), 1); break;
  case SINH: smooth(std::sinh(a[0].v), std::cosh(a[0].v)); if (std::fabs(a[0].v) > 20) ok = false; break; case COSH: smooth(std::cosh(a[0].v), std::cosh(a[0].v)); if (std::fabs(a[0].v) > 20) ok = false; break;
  case ASIN: case ACOS: smooth(n.op == ASIN ? std::asin(a[0].v) : std::acos(a[0].v), 40); if (std::fabs(a[0].v) > 0.999) ok = false; break;
  case LOG2: case LOG10: smooth(n.op == LOG2 ? std::log2(a[0].v) : std::log10(a[0].v), 2 / a[0].v); if (a[0].v < 0.5) ok = false; break;
  case EXP2: smooth(std::exp2(a[0].v), std::exp2(a[0].v)); if (std::fabs(a[0].v) > 50) ok = false; break; case CBRT: smooth(std::cbrt(a[0].v), 1); if (std::fabs(a[0].v) < 0.5) ok = false; break;
  case TAN: smooth(std::tan(a[0].v), 1 / std::pow(std::cos(a[0].v), 2)); if (std::fabs(std::cos(a[0].v)) < 1e-2 || std::fabs(a[0].v) > 1e6) ok = false; break;
  case HYPOT: r.v = std::hypot(a[0].v, a[1].v); r.m = a[0].m + a[1].m; r.e = a[0].e + a[1].e; break;
  case ATAN2: { double h = std::hypot(a[0].v, a[1].v); r.v = std::atan2(a[0].v, a[1].v); r.m = std::fabs(r.v) + 1; r.e = (a[0].e + a[1].e + u * (a[0].m + a[1].m)) / h; if (h < 1e-3 || std::fabs(a[0].v) < 1e-3) ok = false; break; }
  case FLOOR: r.v = std::floor(a[0].v); r.m = std::fabs(r.v) + 1; break;
  case CEIL: r.v = std::ceil(a[0].v); r.m = std::fabs(r.v) + 1; break;
  case TRUNC: r.v = std::trunc(a[0].v); r.m = std::fabs(r.v) + 1; break;
  case IF: { Val c = eval(*n.k[0], x, ok), p = eval(*n.k[1], x, ok), q = eval(*n.k[2], x, ok); r = c.v != 0 ? p : q; break; }
  case LT: r.v = a[0].v < a[1].v; break; case LE: r.v = a[0].v <= a[1].v; break; case GT: r.v = a[0].v > a[1].v; break; case GE: r.v = a[0].v >= a[1].v; break; case EQ: r.v = a[0].v == a[1].v; break; case NE: r.v = a[0].v != a[1].v; break;
  case AND: r.v = a[0].v != 0 && a[1].v != 0; break; case OR: r.v = a[0].v != 0 || a[1].v != 0; break; case NOT: r.v = a[0].v == 0; break;
  }
  if (!std::isfinite(r.v) || r.m > 1e13) ok = false;
  return r;
}
inline long leval(const Node& n, const std::vector<long>& x, bool& ok) {
  std::vector<long> a; for (auto& k : n.k) a.push_back(leval(*k, x, ok)); if (!ok) return 0; long r = 0;
  switch (n.op) {
  case CONST: r = long(n.c); break; case VAR: r = x[n.var]; break; case ADD: r = a[0] + a[1]; break; case SUB: r = a[0] - a[1]; break; case MUL: r = a[0] * a[1]; break;
  case DIV: if (a[1] == 0) { ok = false; return 0; } r = a[0] / a[1]; break; case MOD: if (a[1] == 0) { ok = false; return 0; } r = a[0] % a[1]; break; case NEG: r = -a[0]; break;
  case POW: r = 1; for (int i = 0; i < int(n.k[1]->c); i++) { r *= a[0]; if (std::labs(r) > (1L << 30)) { ok = false; return 0; } } break;
  case ABS: r = std::labs(a[0]); break; case MIN_: r = std::min(a[0], a[1]); break; case MAX_: r = std::max(a[0], a[1]); break; case IF: r = a[0] ? a[1] : a[2]; break;
  case LT: r = a[0] < a[1]; break; case LE: r = a[0] <= a[1]; break; case GT: r = a[0] > a[1]; break; case GE: r = a[0] >= a[1]; break; case EQ: r = a[0] == a[1]; break; case NE: r = a[0] != a[1]; break;
  case AND: r = a[0] && a[1]; break; case OR: r = a[0] || a[1]; break; case NOT: r = !a[0]; break; default: ok = false;
  }
  if (std::labs(r) > (1L << 30)) { ok = false; return 0; } return r;
}
typedef std::complex<double> C;
struct CVal { C v; double m = 0; };
inline CVal ceval(const Node& n, const std::vector<C>& x, bool& ok) {
  std::vector<CVal> a; for (auto& k : n.k) a.push_back(ceval(*k, x, ok)); CVal r;
  switch (n.op) {
  case CONST: r.v = n.c; r.m = std::fabs(n.c); break; case VAR: r.v = x[n.var]; r.m = std::abs(r.v); break; case PI_: r.v = M_PI; r.m = M_PI; break; case E_: r.v = M_E; r.m = M_E; break;
  case ADD: r.v = a[0].v + a[1].v; r.m = a[0].m + a[1].m; break; case SUB: r.v = a[0].v - a[1].v; r.m = a[0].m + a[1].m; break; case MUL: r.v = a[0].v * a[1].v; r.m = a[0].m * a[1].m; break;
  case DIV: { double d = std::abs(a[1].v); if (d < 1e-3) ok = false; r.v = a[0].v / a[1].v; r.m = a[0].m * a[1].m / (d * d); break; }
  case NEG: r = a[0]; r.v = -r.v; break; case POW: r.v = 1; r.m = 1; for (int i = 0; i < int(n.k[1]->c); i++) { r.v *= a[0].v; r.m *= a[0].m; } break;
  case ABS: r.v = std::abs(a[0].v); r.m = a[0].m; break; default: ok = false;
  }
  if (!std::isfinite(r.m) || r.m > 1e13) ok = false; return r;
}
// Integer-valued expressions over integer-valued variables (iv), exact in doubles and longs
inline NP gen_int(Gen& g, const std::vector<int>& iv, int d, bool longs) {
  if (d <= 0 || g.chance(1, 6)) { if (iv.empty() || g.chance(1, 3)) return con(double(g.range(0, 9))); return var(g.pick(iv)); }
  auto s = [&]() { return gen_int(g, iv, d - 1, longs); }; auto nz = [&]() { return g.flag() ? con(double(g.range(1, 7))) : mk(ADD, {mk(ABS, {s()}), con(double(g.range(1, 3)))}); };
  switch (g.below(13)) {
  case 0: case 1: return mk(ADD, {s(), s()}); case 2: case 3: return mk(SUB, {s(), s()}); case 4: case 5: return mk(MUL, {s(), s()}); case 6: return mk(NEG, {s()}); case 7: return longs ? mk(MUL, {s(), s()}) : mk(POW, {s(), con(double(g.range(1, 3)))}); // fparser has no powers of long
  case 8: return mk(ABS, {s()}); case 9: return mk(g.flag() ? MIN_ : MAX_, {s(), s()});
  case 10: return longs ? mk(DIV, {s(), nz()}) : mk(g.pick(std::vector<Op>{FLOOR, CEIL, TRUNC}), {mk(ADD, {mk(MUL, {s(), con(0.25)}), con(0.125)})});
  case 11: return mk(MOD, {s(), con(double(g.range(1, 7)))});
  default: { NP c = mk(g.pick(std::vector<Op>{LT, LE, GT, GE, EQ, NE}), {s(), s()}); if (g.chance(1, 4)) c = mk(NOT, {c}); if (g.chance(1, 4)) c = mk(g.flag() ? AND : OR, {c, mk(g.pick(std::vector<Op>{LT, GE, EQ}), {s(), s()})}); return mk(IF, {c, s(), s()}); }
  }
}
inline NP gen_real(Gen& g, const std::vector<int>& iv, const std::vector<int>& rv, int d) {
  if (d <= 0 || g.chance(1, 6)) { switch (g.below(6)) { case 0: return con(double(g.range(0, 40)) / 4); case 1: return g.flag() ? mk(PI_) : mk(E_); case 2: if (!iv.empty()) return gen_int(g, iv, 1, false); default: if (rv.empty()) return iv.empty() ? con(1.5) : var(g.pick(iv)); return var(g.pick(rv)); } }
  auto s = [&]() { return gen_real(g, iv, rv, d - 1); }; auto pos = [&]() { return mk(ADD, {mk(ABS, {s()}), con(double(g.range(1, 3)))}); };
  switch (g.below(20)) {
  case 16: { NP k = s(), l = g.flag() ? mk(SIN, {k}) : mk(COS, {k}), m = g.pick(std::vector<Op>{SIN, COS, TAN}) == TAN ? mk(TAN, {mk(ATAN, {k})}) : g.flag() ? mk(SIN, {k}) : mk(COS, {k}); return mk(g.pick(std::vector<Op>{ADD, SUB, MUL}), {l, m}); } // the same argument twice
  case 17: { NP k = mk(ATAN, {s()}); return mk(g.pick(std::vector<Op>{ADD, SUB, MUL}), {mk(g.flag() ? SINH : COSH, {k}), mk(g.flag() ? SINH : COSH, {k})}); }
  case 18: { NP k = s(); return mk(g.pick(std::vector<Op>{ADD, SUB, MUL, MIN_, MAX_}), {k, g.flag() ? k : mk(NEG, {k})}); }
  case 19: switch (g.below(5)) { case 0: { NP k = s(); return mk(g.flag() ? ASIN : ACOS, {mk(DIV, {k, mk(ADD, {mk(ABS, {k}), con(1)})})}); } case 1: return mk(g.flag() ? LOG2 : LOG10, {pos()}); case 2: return mk(EXP2, {mk(ATAN, {s()})}); case 3: return mk(g.flag() ? HYPOT : ATAN2, {s(), s()}); default: return mk(CBRT, {pos()}); }
  case 0: case 1: case 2: return mk(ADD, {s(), s()}); case 3: case 4: return mk(SUB, {s(), s()}); case 5: case 6: return mk(MUL, {s(), s()}); case 7: return mk(NEG, {s()}); case 8: return mk(POW, {s(), con(double(g.range(1, 4)))});
  case 9: return mk(DIV, {s(), g.flag() ? con(double(g.range(1, 16)) / 2) : pos()}); case 10: return mk(ABS, {s()}); case 11: return mk(g.flag() ? MIN_ : MAX_, {s(), s()});
  case 12: return mk(g.flag() ? SIN : COS, {s()}); case 13: return mk(g.pick(std::vector<Op>{LOG, SQRT}), {pos()}); case 14: return mk(g.pick(std::vector<Op>{ATAN, TANH, EXP}), {mk(ATAN, {s()})});
  default: return mk(IF, {mk(g.pick(std::vector<Op>{LT, GE, EQ}), {gen_int(g, iv, 1, false), gen_int(g, iv, 1, false)}), s(), s()});
  }
}
inline NP gen_complex(Gen& g, int nv, int d) {
  if (d <= 0 || g.chance(1, 6)) { if (g.chance(1, 3)) return con(double(g.range(0, 20)) / 4); if (g.chance(1, 8)) return mk(PI_); return var(g.below(nv)); } auto s = [&]() { return gen_complex(g, nv, d - 1); };
  switch (g.below(9)) { case 0: case 1: return mk(ADD, {s(), s()}); case 2: case 3: return mk(SUB, {s(), s()}); case 4: case 5: return mk(MUL, {s(), s()}); case 6: return mk(NEG, {s()}); case 7: return mk(POW, {s(), con(double(g.range(1, 3)))}); default: return mk(DIV, {s(), mk(ADD, {mk(ABS, {s()}), con(double(g.range(1, 4)))})}); }
}
inline bool uses(const Node& n, int v) { if (n.op == VAR && n.var == v) return true; for (auto& k : n.k) if (uses(*k, v)) return true; return false; }
inline std::string num(Gen& g, double c, bool longs) { std::ostringstream o; o.precision(17); if (!longs && c == std::rint(c) && g.chance(1, 8)) o << c << ".0"; else if (!longs && c > 0 && g.chance(1, 12)) o << c * 1000 << "e-3"; else o << c; return o.str(); }
// Text: with every operator parenthesised, or as few parentheses as the usual precedences allow
inline std::string text(Gen& g, const Node& n, const std::vector<std::string>& names, bool full, bool longs, int lvl = 0) {
  static const std::map<Op, std::pair<std::string, int>> bin = {{ADD, {"+", 3}}, {SUB, {"-", 3}}, {MUL, {"*", 4}}, {DIV, {"/", 4}}, {MOD, {"%", 4}}, {LT, {"<", 2}}, {LE, {"<=", 2}}, {GT, {">", 2}}, {GE, {">=", 2}}, {EQ, {"=", 2}}, {NE, {"!=", 2}}, {AND, {"&", 1}}, {OR, {"|", 0}}};
  static const std::map<Op, std::string> fn = {{ABS, "abs"}, {MIN_, "min"}, {MAX_, "max"}, {SIN, "sin"}, {COS, "cos"}, {EXP, "exp"}, {LOG, "log"}, {SQRT, "sqrt"}, {ATAN, "atan"}, {TANH, "tanh"}, {FLOOR, "floor"}, {CEIL, "ceil"}, {TRUNC, "trunc"}, {IF, "if"}, {SINH, "sinh"}, {COSH, "cosh"}, {ASIN, "asin"}, {ACOS, "acos"}, {LOG2, "log2"}, {LOG10, "log10"}, {EXP2, "exp2"}, {HYPOT, "hypot"}, {ATAN2, "atan2"}, {CBRT, "cbrt"}, {TAN, "tan"}};
  auto sp = [&]() { return std::string(g.chance(1, 5) ? " " : ""); };
  if (n.op == CONST) return num(g, n.c, longs); if (n.op == VAR) return names[n.var]; if (n.op == PI_) return "pi"; if (n.op == E_) return "e";
  if (bin.count(n.op)) { auto b = bin.at(n.op); bool cmp = b.second == 2; std::string t = text(g, *n.k[0], names, full, longs, cmp ? b.second + 1 : b.second) + sp() + b.first + sp() + text(g, *n.k[1], names, full, longs, b.second + 1); return full || b.second < lvl ? "(" + t + ")" : t; }
  if (n.op == NEG) { std::string t = "-" + text(g, *n.k[0], names, full, longs, 9); return full || lvl > 0 ? "(" + t + ")" : t; }
  if (n.op == NOT) return "!(" + text(g, *n.k[0], names, full, longs, 0) + ")";
  if (n.op == POW) { std::string t = text(g, *n.k[0], names, full, longs, 9) + sp() + "^" + sp() + text(g, *n.k[1], names, full, longs, 9); return full || lvl > 6 ? "(" + t + ")" : t; }
  std::string t = fn.at(n.op) + "("; for (size_t i = 0; i < n.k.size(); i++) t += (i ? "," + sp() : "") + text(g, *n.k[i], names, full, longs, 0); return t + ")";
}
inline double tol(const Val& v) { return 1e4 * v.e + 1e-11 * v.m + 1e-12; }
}
#endif
