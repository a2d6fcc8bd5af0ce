// Generated objective functions given by formulas (not the code under test).
#ifndef VERIF_OBJECTIVES_HH
#define VERIF_OBJECTIVES_HH
#include "common.hh"
namespace obj {
struct Obj { std::function<double(const BV&)> f; std::string name; };
inline uint64_t hash(const BV& x, uint64_t h) { for (auto b : x) { h ^= b + 0x9e3779b97f4a7c15ULL; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; } return h; }
// integral: values exactly representable in single precision too
inline Obj gen_obj(Gen& g, int n, bool integral = false) {
  Obj o; uint64_t salt = g.seed32(); int kind = g.below(integral ? 6 : 8); double off = g.pick(std::vector<double>{0, 0, 0, -1000, 1000, -0.5}); 
  switch (kind) {
  case 0: o.f = [off](const BV& x) { double w = 0; for (auto b : x) w += b; return w + off; }; o.name = "ones"; break;
  case 1: o.f = [off](const BV& x) { double w = 0; for (auto b : x) { if (!b) break; w++; } return w + off; }; o.name = "leading"; break;
  case 2: { int m = g.irange(2, 6); o.f = [salt, m, off](const BV& x) { return double(hash(x, salt) % m) + off; }; o.name = "hash" + std::to_string(m); break; }
  case 3: o.f = [salt, off](const BV& x) { return double(hash(x, salt) % 100000) + off; }; o.name = "hash"; break;
  case 4: o.f = [off](const BV&) { return off; }; o.name = "constant"; break;
  case 5: { std::vector<int> w(n); for (auto& v : w) v = g.irange(-3, 3); o.f = [w, off](const BV& x) { double s = off; for (size_t i = 0; i < w.size(); i++) s += w[i] * x[i]; return s; }; o.name = "weights" + pbt::showv(w); break; }
  case 6: { std::vector<double> w(n); for (auto& v : w) v = g.real(-1, 1); o.f = [w, off](const BV& x) { double s = off; for (size_t i = 0; i < w.size(); i++) s += w[i] * x[i]; return s; }; o.name = "real-weights"; break; }
  default: o.f = [salt, off](const BV& x) { return double(hash(x, salt) >> 11) / double(1ULL << 53) + off; }; o.name = "hash-real"; break;
  }
  o.name += off ? "+" + std::to_string(off) : "";
  if (g.chance(1, 8)) { double k = g.pick(std::vector<double>{0x1p40, -0x1p40, 0x1p-60, 0x1p90}); auto f = o.f; o.f = [f, k](const BV& x) { return k * f(x); }; o.name += "*" + std::to_string(k); }
  return o;
}
}
#endif
