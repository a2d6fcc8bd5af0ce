// Small property-based testing engine: every random choice of a case is drawn
// from a recorded "tape", so that any failing case (including one which
// crashes the process) can be replayed and shrunk at the level of the tape.
#ifndef VERIF_PBT_HH
#define VERIF_PBT_HH
#include <cstdint>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string tag, msg; };
struct Discard {};

extern uint64_t *g_tape;          // shared with the parent process
extern volatile uint64_t *g_tape_len;
const size_t TAPE_CAP = 1u << 20;

// Where a case describes itself: memory shared with the parent process, so
// that the description survives a crash.
extern char *g_note;
const size_t NOTE_CAP = 4096;
struct NoteBuf: std::streambuf {
  NoteBuf() { if (g_note) { std::memset(g_note, 0, NOTE_CAP); setp(g_note, g_note + NOTE_CAP - 1); } }
  int overflow(int c) override { return c == EOF ? 0 : c; } // drop the excess
};

class Gen {
  uint64_t s_;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t raw() { // splitmix64
    uint64_t z = (s_ += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
public:
  bool is_nontrivial = false;
  bool thorough = false;
  NoteBuf notebuf;
  std::ostream notes{&notebuf};
  std::vector<std::string> labels;
  explicit Gen(uint64_t seed): s_(seed), replay_(false) {}
  explicit Gen(const std::vector<uint64_t>& tape): s_(0), replay_(true), in_(tape) {}

  // Uniform choice in [0, n); n == 0 means the full 64-bit range.
  uint64_t below(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (n) v %= n;
    } else {
      v = raw();
      if (n) v %= n;
    }
    if (pos_ < TAPE_CAP) { g_tape[pos_] = v; *g_tape_len = pos_ + 1; }
    pos_++;
    return v;
  }
  uint64_t u64() { return below(0); }
  uint32_t seed32() { return uint32_t(below(1ULL << 32)); }
  // Uniform in [lo, hi]
  long range(long lo, long hi) { return lo + long(below(uint64_t(hi - lo) + 1)); }
  int irange(int lo, int hi) { return int(range(lo, hi)); }
  // Biased towards small values: in [lo, hi]
  int small(int lo, int hi) {
    if (lo >= hi) return lo;
    switch (below(4)) {
    case 0: return irange(lo, std::min(hi, lo + 3));
    case 1: return irange(lo, std::min(hi, lo + 8));
    default: return irange(lo, hi);
    }
  }
  bool flag() { return below(2) == 1; }
  bool chance(int num, int den) { return int(below(den)) >= den - num; } // shrinks to false
  double unit() { return double(below(1ULL << 53)) / double(1ULL << 53); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // Modest, "nice" or awkward reals (always finite)
  double weight() {
    switch (below(6)) {
    case 0: return double(range(-3, 3));
    case 1: return double(range(-1000, 1000));
    case 2: return real(-1, 1);
    case 3: return real(-100, 100);
    case 4: return double(range(-8, 8)) / 4;
    default: return real(-1e6, 1e6);
    }
  }
  // Any finite double, including extreme ones
  double finite() {
    switch (below(8)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::denorm_min() * double(range(1, 100));
    case 3: return std::numeric_limits<double>::max() * (flag() ? -1 : 1);
    case 4: { // random bit pattern
      uint64_t u = u64(); double d; std::memcpy(&d, &u, 8);
      return std::isfinite(d) ? d : 1.0 / 3.0; }
    case 5: return 1.0 / double(range(1, 1000));
    default: return weight();
    }
  }
  std::vector<uint8_t> bits(int n) {
    std::vector<uint8_t> bv(n);
    int mode = int(below(6));
    for (int i = 0; i < n; i++) {
      if (mode == 0) bv[i] = 0;
      else if (mode == 1) bv[i] = 1;
      else if (mode == 2) bv[i] = below(8) == 7;
      else if (mode == 3) bv[i] = below(8) != 7;
      else bv[i] = uint8_t(below(2));
    }
    return bv;
  }
  std::vector<uint8_t> rawbits(int n) {
    std::vector<uint8_t> bv(n);
    for (int i = 0; i < n; i++) bv[i] = uint8_t(below(2));
    return bv;
  }
  void label(const std::string& s) { labels.push_back(s); }
  void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
  std::ostream& note() { return notes; }
};

typedef void (*case_fn)(Gen&);
struct Sub { std::string name; int quick; int thorough; case_fn fn; };
std::vector<Sub>& subs();
struct Reg { Reg(const char *n, int q, int t, case_fn f) { subs().push_back({n, q, t, f}); } };

std::string show(const std::vector<uint8_t>& bv);
template<class T> std::string showv(const std::vector<T>& v) {
  std::ostringstream s; s.precision(17); s << "[";
  for (size_t i = 0; i < v.size() && i < 40; i++) s << (i ? "," : "") << v[i];
  if (v.size() > 40) s << ",..." << v.size();
  s << "]"; return s.str();
}

// |a - b| within relative tolerance of scale
inline bool close(double a, double b, double scale = 1, double tol = 1e-9) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= tol * (std::fabs(scale) + std::max(std::fabs(a), std::fabs(b)));
}

// Directory created for this process, removed by the driver; for files.
std::string scratch();

}

#define PBT(name, quick, thorough)                                      \
  static void pbt_##name(pbt::Gen& g);                                  \
  static pbt::Reg reg_##name(#name, quick, thorough, pbt_##name);       \
  static void pbt_##name(pbt::Gen& g)

#define FAIL(tag_, stream_)                                             \
  do { std::ostringstream os__; os__.precision(17); os__ << stream_;    \
    throw pbt::Failure{tag_, os__.str()}; } while (0)
#define REQUIRE(cond, tag_, stream_)                                    \
  do { if (!(cond)) FAIL(tag_, stream_ << "   [" #cond "]"); } while (0)

#endif
