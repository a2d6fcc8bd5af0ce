// Helpers shared by the harnesses (reference code, never the code under test).
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include "pbt.hh"
#include "hnco/bit-vector.hh"
#include "hnco/random.hh"
#include <algorithm>
#include <fstream>
#include <functional>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <unistd.h>
using pbt::Gen;
typedef hnco::bit_vector_t BV;

inline void seed(Gen& g) { hnco::random::Generator::set_seed(g.seed32()); }
inline bool mixed(const BV& x) { return std::count(x.begin(), x.end(), 1) > 0 && std::count(x.begin(), x.end(), 0) > 0; }
inline bool valid(const BV& x) { for (auto b : x) if (b > 1) return false; return true; }
inline BV from_int(uint64_t v, int n) { BV x(n); for (int i = 0; i < n; i++) x[i] = (v >> i) & 1; return x; }
inline BV flipped(BV x, const std::vector<int>& f) { for (int i : f) x[i] ^= 1; return x; }
inline std::vector<int> gen_perm(Gen& g, int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[i - int(g.below(i + 1))]); return p; }
// Sorted distinct positions
inline std::vector<int> gen_subset(Gen& g, int n, int k) { std::vector<int> p = gen_perm(g, n); p.resize(k); std::sort(p.begin(), p.end()); return p; }
// Bit vector near a given one
inline BV gen_near(Gen& g, const BV& x) { BV y = x; int k = g.small(0, std::min<int>(4, x.size())); for (int i = 0; i < k; i++) y[g.below(x.size())] ^= 1; return y; }
inline std::string tmpfile_path(const std::string& name) { return pbt::scratch() + "/" + name; }
inline void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline std::string slurp_file(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
// Header of a boost text archive, as written by the installed library
#endif
