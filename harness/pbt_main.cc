#include "pbt.hh"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
namespace pbt {
uint64_t *g_tape; char *g_note; volatile uint64_t *g_tape_len;
std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
std::string show(const std::vector<uint8_t>& bv) {
  std::string s; for (uint8_t c : bv) s += (c == 0 ? '0' : c == 1 ? '1' : '?'); return s;
}
static std::string g_scratch = "/tmp";
std::string scratch() { return g_scratch; }
}

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
static uint64_t hs(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Slot { // shared, one per worker
  uint64_t tape_len; volatile uint64_t progress; volatile int sub; volatile uint64_t index;
  volatile int running; volatile uint64_t done; volatile int failed;
  char tag[128]; char msg[8192]; char note[4096];
  uint64_t tape[TAPE_CAP];
};

static Slot *slot_alloc() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Slot *)p;
}
static void use(Slot *s) { g_tape = s->tape; g_tape_len = (volatile uint64_t *)&s->tape_len; s->tape_len = 0; g_note = s->note; }
static void put(char *d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static bool g_thorough = false;
// 0 ok, 1 failed (slot filled), 2 discarded
static int run_case(Slot *s, const Sub& sub, Gen& g) {
  g.thorough = g_thorough;
  int r = 0;
  try { sub.fn(g); }
  catch (const Failure& f) { put(s->tag, sizeof s->tag, f.tag); put(s->msg, sizeof s->msg, f.msg); r = 1; }
  catch (const Discard&) { r = 2; }
  catch (const std::exception& e) { put(s->tag, sizeof s->tag, "unexpected-exception"); put(s->msg, sizeof s->msg, std::string("unexpected exception: ") + e.what()); r = 1; }
  catch (...) { put(s->tag, sizeof s->tag, "unexpected-exception"); put(s->msg, sizeof s->msg, "unexpected exception of unknown type"); r = 1; }
  return r;
}

static std::string slurp(const std::string& p, size_t cap) {
  std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > cap) s = s.substr(0, cap); return s;
}
static std::string crash_kind(int status, const std::string& err) {
  size_t p;
  if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    size_t b = p + 25, e = err.find_first_of(" \n", b); return "asan-" + err.substr(b, e - b);
  }
  if (err.find("runtime error:") != std::string::npos) return "ubsan";
  if ((p = err.find("Assertion `")) != std::string::npos) return "assertion";
  if (err.find("Assertion '") != std::string::npos) return "assertion";
  if (WIFSIGNALED(status)) return "signal-" + std::to_string(WTERMSIG(status));
  return "exit-" + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}
static std::string crash_msg(const std::string& err) {
  std::string out; std::istringstream in(err); std::string l; int n = 0;
  while (std::getline(in, l) && n < 12) {
    if (l.find("Assertion") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos ||
        l.find("runtime error") != std::string::npos || l.find("    #") == 0 || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos) { out += l + "\n"; n++; }
  }
  if (out.empty()) out = err.substr(0, 600);
  return out;
}

// CPU seconds used by a process: the unit of the non-termination limit, so
// that a loaded machine does not turn slowness into a failure.
static double cpu_of(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/stat"); std::string l; if (!std::getline(f, l)) return 0;
  size_t p = l.rfind(')'); if (p == std::string::npos) return 0;
  std::istringstream in(l.substr(p + 2)); std::string x; double v = 0, t;
  for (int i = 0; i < 11; i++) in >> x;
  for (int i = 0; i < 2; i++) if (in >> t) v += t;
  return v / double(sysconf(_SC_CLK_TCK));
}
static const double WALL_FACTOR = 5; // for cases which block without using the CPU

struct Outcome { bool fail = false; std::string tag, msg, note; std::vector<uint64_t> tape; };

// Run one tape in a child; reports the tape as consumed.
static Outcome attempt(Slot *s, int subi, const std::vector<uint64_t>& tape, double limit) {
  Outcome o; std::string errf = g_scratch + "/attempt.err";
  s->tag[0] = s->msg[0] = s->note[0] = 0; s->tape_len = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
    int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1);
    use(s); Gen g(tape); int r = run_case(s, subs()[subi], g);
    _exit(r == 1 ? 41 : r == 2 ? 42 : 40);
  }
  int status = 0; double t0 = now(); bool timed = false;
  while (true) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > limit && (cpu_of(pid) > limit || now() - t0 > WALL_FACTOR * limit)) { kill(pid, SIGKILL); waitpid(pid, &status, 0); timed = true; break; }
    usleep(now() - t0 < 0.05 ? 300 : 5000);
  }
  o.tape.assign(s->tape, s->tape + std::min<uint64_t>(s->tape_len, TAPE_CAP)); o.note = s->note;
  if (timed) { o.fail = true; o.tag = "non-termination"; o.msg = "case did not terminate"; return o; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 41) { o.fail = true; o.tag = s->tag; o.msg = s->msg; return o; }
  if (WIFEXITED(status) && (WEXITSTATUS(status) == 40 || WEXITSTATUS(status) == 42)) return o;
  std::string err = slurp(errf, 1 << 20);
  o.fail = true; o.tag = crash_kind(status, err); o.msg = "process died: " + o.tag + "\n" + crash_msg(err);
  return o;
}

// Failures which depend on what ran earlier in the process (static state) are replayed as a
// history of cases: a tape of (seed, then pairs of sub-check number and case number).
static uint64_t case_seed(uint64_t seed, int sub, uint64_t idx);
static Outcome attempt_history(Slot *s, const std::vector<uint64_t>& h, double limit) {
  Outcome o; std::string errf = g_scratch + "/attempt.err"; s->tag[0] = s->msg[0] = s->note[0] = 0; s->tape_len = 0; s->progress = 0; fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1);
    for (size_t k = 1; k + 1 < h.size(); k += 2) { if (h[k] >= subs().size()) _exit(40); s->progress = k; lseek(2, 0, SEEK_SET); (void)!ftruncate(2, 0); use(s); Gen g(case_seed(h[0], int(h[k]), h[k + 1])); if (run_case(s, subs()[h[k]], g) == 1) _exit(41); }
    _exit(40);
  }
  int status = 0; double t0 = now();
  while (true) {
    pid_t w = waitpid(pid, &status, WNOHANG); if (w == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); return o; }
    usleep(1000);
  }
  o.tape = h; o.note = s->note;
  if (WIFEXITED(status) && WEXITSTATUS(status) == 41) { o.fail = true; o.tag = s->tag; o.msg = s->msg; return o; }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 40) return o;
  if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) return o;
  std::string err = slurp(errf, 1 << 20); o.fail = true; o.tag = crash_kind(status, err); o.msg = "process died: " + o.tag + "\n" + crash_msg(err); return o;
}

static Outcome shrink(Slot *s, int subi, Outcome best, double limit, double budget, int& attempts) {
  double t0 = now();
  auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
  auto tryit = [&](const std::vector<uint64_t>& t) {
    if (now() - t0 > budget || attempts > 4000) return false;
    attempts++;
    Outcome o = attempt(s, subi, t, limit);
    if (o.fail && o.tag == best.tag) {
      std::vector<uint64_t> c = less(o.tape, t) ? o.tape : t;
      if (less(c, best.tape)) { if (o.note.size()) best.note = o.note; best.msg = o.msg; best.tape = c; return true; }
    }
    return false;
  };
  bool progress = true;
  while (progress && now() - t0 < budget && attempts < 4000) {
    progress = false;
    for (size_t k = best.tape.size(); k >= 1; k /= 2) {        // delete chunks
      for (size_t i = 0; i + k <= best.tape.size();) {
        std::vector<uint64_t> t = best.tape; t.erase(t.begin() + i, t.begin() + i + k);
        if (tryit(t)) progress = true; else i += k;
        if (now() - t0 > budget) break;
      }
      if (k == 1) break;
    }
    for (size_t k = best.tape.size(); k >= 1; k /= 2) {        // zero chunks
      for (size_t i = 0; i + k <= best.tape.size(); i += k) {
        std::vector<uint64_t> t = best.tape; bool ch = false;
        for (size_t j = i; j < i + k; j++) { if (t[j]) ch = true; t[j] = 0; }
        if (ch && tryit(t)) progress = true;
        if (now() - t0 > budget) break;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.tape.size() && now() - t0 < budget; i++) { // lower values
      uint64_t lo = 0;
      while (i < best.tape.size() && best.tape[i] > lo) {
        uint64_t mid = lo + (best.tape[i] - lo) / 2;
        std::vector<uint64_t> t = best.tape; t[i] = mid;
        if (tryit(t)) progress = true; else { if (mid + 1 > best.tape[i]) break; lo = mid + 1; }
        if (now() - t0 > budget) break;
      }
    }
  }
  return best;
}

static uint64_t case_seed(uint64_t seed, int sub, uint64_t idx) { return mix(mix(seed, hs(subs()[sub].name)), idx + 1); }

int main(int argc, char **argv) {
  uint64_t seed = 1; int workers = 8; double cap = 60, hang = 120; std::string out, only, replay, known; double scale = 1; bool racy = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(nx()); else if (a == "--thorough") g_thorough = true;
    else if (a == "--workers") workers = std::stoi(nx()); else if (a == "--cap") cap = std::stod(nx());
    else if (a == "--out") out = nx(); else if (a == "--only") only = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--scratch") g_scratch = nx(); else if (a == "--hang") hang = std::stod(nx());
    else if (a == "--scale") scale = std::stod(nx()); else if (a == "--known") known = nx();
    else if (a == "--racy") racy = true;
    else if (a == "--list") { for (auto& s : subs()) printf("%s %d %d\n", s.name.c_str(), s.quick, s.thorough); return 0; }
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
  }
  std::sort(subs().begin(), subs().end(), [](const Sub& a, const Sub& b) { return a.name < b.name; });
  const std::string base = g_scratch;
  Slot *main_slot = slot_alloc();

  if (!replay.empty()) { // file: first line sub name, then the tape
    std::ifstream f(replay); std::string name; std::getline(f, name); if (name.size() > 9 && name.substr(name.size() - 9) == " thorough") { name.resize(name.size() - 9); g_thorough = true; } std::vector<uint64_t> t; uint64_t v; while (f >> v) t.push_back(v);
    if (name == "@history") { Outcome o = attempt_history(main_slot, t, 600); printf("%s %s\n%s\nnote: %s\n", o.fail ? "FAIL" : "pass", o.tag.c_str(), o.msg.c_str(), o.note.c_str()); return o.fail ? 1 : 0; }
    for (size_t i = 0; i < subs().size(); i++) if (subs()[i].name == name) {
      Outcome o = attempt(main_slot, int(i), t, hang);
      printf("%s %s\n%s\nnote: %s\n", o.fail ? "FAIL" : "pass", o.tag.c_str(), o.msg.c_str(), o.note.c_str());
      return o.fail ? 1 : 0;
    }
    fprintf(stderr, "no sub-check %s\n", name.c_str()); return 3;
  }

  // (property-wide) known findings: "sub|tag" lines
  std::set<std::string> knownset; if (!known.empty()) { std::ifstream f(known); std::string l; while (std::getline(f, l)) if (l.size()) knownset.insert(l); }

  // Order all cases so that the sub-checks progress proportionally.
  struct Item { double pos; int sub; uint64_t idx; };
  std::vector<Item> items;
  for (size_t i = 0; i < subs().size(); i++) {
    if (!only.empty() && subs()[i].name != only) continue;
    long n = long((g_thorough ? subs()[i].thorough : subs()[i].quick) * scale); if (n < 1) n = 1;
    for (long k = 0; k < n; k++) items.push_back({(k + 0.5) / n, int(i), uint64_t(k)});
  }
  std::stable_sort(items.begin(), items.end(), [](const Item& a, const Item& b) { return a.pos < b.pos; });

  const double t0 = now();
  std::vector<Slot *> slots(workers); std::vector<pid_t> pids(workers, 0); std::vector<size_t> nexti(workers);
  std::vector<double> last(workers, 0), lastcpu(workers, -1); std::vector<uint64_t> lastp(workers, 0); std::vector<int> gen(workers, 0), hung(workers, 0);
  for (int w = 0; w < workers; w++) { slots[w] = slot_alloc(); nexti[w] = w; }
  std::vector<std::string> statfiles;
  auto spawn = [&](int w) {
    std::string sf = base + "/stat." + std::to_string(w) + "." + std::to_string(gen[w]++); statfiles.push_back(sf);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      g_scratch = base + "/w" + std::to_string(w); (void)!system(("mkdir -p " + g_scratch).c_str());
      int fd = open((base + "/err." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2);
      int nfd = open("/dev/null", O_WRONLY); dup2(nfd, 1);
      Slot *s = slots[w];
      std::map<std::string, uint64_t> cnt, labels; std::unordered_set<uint64_t> nt; uint64_t evals = 0, discards = 0; std::map<std::string, std::vector<std::string>> samples;
      size_t i = nexti[w];
      for (; i < items.size(); i += workers) {
        if (now() - t0 > cap) break;
        const Sub& sub = subs()[items[i].sub];
        s->sub = items[i].sub; s->index = i; s->running = 1; s->progress++;
        lseek(2, 0, SEEK_SET); (void)!ftruncate(2, 0);
        use(s); Gen g(case_seed(seed, items[i].sub, items[i].idx));
        int r = run_case(s, sub, g);
        if (r == 1) { s->failed = 1; s->index = i; break; }
        s->running = 0;
        if (r == 2) { discards++; continue; }
        evals++; cnt[sub.name]++;
        for (auto& l : g.labels) labels[sub.name + ":" + l]++;
        if (g.is_nontrivial) {
          uint64_t h = hs(sub.name); uint64_t m = std::min<uint64_t>(s->tape_len, TAPE_CAP); for (uint64_t k = 0; k < m; k++) h = mix(h, s->tape[k]); nt.insert(h);
          auto& sm = samples[sub.name]; if (sm.size() < 1 && w == int(items[i].sub) % workers) sm.push_back(std::string(s->note));
        }
      }
      std::ofstream f(sf);
      f << "E " << evals << "\nD " << discards << "\n"; for (auto& c : cnt) f << "C " << c.first << " " << c.second << "\n";
      for (auto& c : labels) f << "L " << c.second << " " << c.first << "\n"; for (uint64_t h : nt) f << "N " << h << "\n";
      for (auto& c : samples) for (auto& x : c.second) { std::string y = x; for (char& ch : y) if (ch == '\n') ch = ';'; f << "S " << c.first << ": " << y << "\n"; }
      f.close();
      s->done = i >= items.size() ? 1 : 2;
      _exit(s->failed ? 41 : 40);
    }
    pids[w] = pid; hung[w] = 0; last[w] = now(); lastcpu[w] = -1; lastp[w] = slots[w]->progress;
  };
  for (int w = 0; w < workers; w++) spawn(w);
  struct Found { int sub; Outcome o; }; std::vector<Found> found; std::map<std::string, int> knownhits; int active = workers; bool stop = false; uint64_t skipped_unrepro = 0;
  int main_attempts = 0;
  while (active > 0) {
    int status; pid_t p = waitpid(-1, &status, WNOHANG);
    if (p > 0) {
      int w = -1; for (int k = 0; k < workers; k++) if (pids[k] == p) w = k;
      if (w < 0) continue;
      Slot *s = slots[w]; pids[w] = 0;
      bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 40;
      if (ok || stop) { active--; continue; }
      Outcome o; o.fail = true; o.tape.assign(s->tape, s->tape + std::min<uint64_t>(s->tape_len, TAPE_CAP));
      o.note = s->note;
      if (s->failed) { o.tag = s->tag; o.msg = s->msg; }
      else { std::string err = slurp(base + "/err." + std::to_string(w), 1 << 20); o.tag = (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && hung[w]) ? "non-termination" : crash_kind(status, err); o.msg = crash_msg(err); }
      int si = s->sub; size_t ii = s->index;
      std::string key = subs()[si].name + "|" + o.tag;
      if (knownset.count(key)) { knownhits[key]++; s->failed = 0; nexti[w] = ii + workers; spawn(w); continue; }
      // confirm
      bool isHang = o.tag == "non-termination"; int hits = 0, tries = 0; Outcome c;
      for (; tries < 3; tries++) { Outcome x = attempt(main_slot, si, o.tape, isHang ? hang : std::max(hang, 60.0)); if (x.fail) { hits++; c = x; } else if (isHang) break; }
      if (hits < 3 && !isHang) for (; tries < 40 && hits < 2; tries++) { Outcome x = attempt(main_slot, si, o.tape, 60); if (x.fail) { hits++; c = x; } }
      if (hits >= 2) {
        c.tape = o.tape; if (c.note.empty()) c.note = o.note;
        key = subs()[si].name + "|" + c.tag;
        if (knownset.count(key)) { knownhits[key]++; s->failed = 0; nexti[w] = ii + workers; spawn(w); continue; }
        found.push_back({si, c}); stop = true; active--;
        for (int k = 0; k < workers; k++) if (pids[k]) kill(pids[k], SIGKILL);
      } else if (!isHang && o.tag != "signal-9" && [&]() { // depends on earlier cases?
        std::vector<uint64_t> all; for (size_t i = nexti[w]; i <= ii; i += workers) { all.push_back(items[i].sub); all.push_back(items[i].idx); }
        auto suffix = [&](size_t k) { std::vector<uint64_t> h(all.end() - 2 * std::min(k, all.size() / 2), all.end()); h.insert(h.begin(), seed); return h; };
        double budget = now() + 90; Outcome x; size_t total = all.size() / 2;
        for (size_t k = 2;; k *= 4) { x = attempt_history(main_slot, suffix(k), budget - now()); if (x.fail || k >= total || now() > budget) break; }
        if (!x.fail) return false;
        bool progress = true; while (progress && now() < budget) { progress = false; for (size_t n = (x.tape.size() - 1) / 2; n >= 1 && now() < budget; n /= 2) for (size_t i = 0; 1 + 2 * (i + n) <= x.tape.size() && now() < budget;) { std::vector<uint64_t> t = x.tape; t.erase(t.begin() + 1 + 2 * i, t.begin() + 1 + 2 * (i + n)); Outcome y = attempt_history(main_slot, t, 20); main_attempts++; if (y.fail) { x = y; progress = true; } else i += n; } }
        Outcome again = attempt_history(main_slot, x.tape, 60); if (!again.fail) return false;
        c = x; c.msg = "after earlier cases in the same process: " + c.msg; return true; }()) {
        found.push_back({-1, c}); stop = true; active--;
        for (int k = 0; k < workers; k++) if (pids[k]) kill(pids[k], SIGKILL);
      } else if (racy && s->failed) { // a wrong result under one thread schedule is a violation even if the schedule does not come back
        o.msg = "(depends on the thread schedule: seen once, not reproduced in 40 replays) " + o.msg;
        found.push_back({si, o}); stop = true; active--;
        for (int k = 0; k < workers; k++) if (pids[k]) kill(pids[k], SIGKILL);
      } else { skipped_unrepro++; fprintf(stderr, "unreproduced: %s %s %s\n", subs()[si].name.c_str(), o.tag.c_str(), o.msg.c_str()); s->failed = 0; nexti[w] = ii + workers; spawn(w); }
      continue;
    }
    for (int w = 0; w < workers; w++) if (pids[w]) {
      if (slots[w]->progress != lastp[w]) { lastp[w] = slots[w]->progress; last[w] = now(); lastcpu[w] = -1; }
      else if (!hung[w] && slots[w]->running && now() - last[w] > 1) {
        double c = cpu_of(pids[w]); if (lastcpu[w] < 0) lastcpu[w] = c;
        if (c - lastcpu[w] > hang || now() - last[w] > WALL_FACTOR * hang) { hung[w] = 1; kill(pids[w], SIGKILL); }
      }
    }
    usleep(5000);
  }
  // shrink the first finding
  for (auto& f : found) {
    if (f.sub >= 0 && f.o.tag != "non-termination") f.o = shrink(main_slot, f.sub, f.o, 30, g_thorough ? 120 : 40, main_attempts);
  }
  uint64_t evals = 0, discards = 0; std::map<std::string, uint64_t> cnt, labels; std::unordered_set<uint64_t> nt; std::vector<std::string> samples;
  for (auto& sf : statfiles) {
    std::ifstream f(sf); std::string l;
    while (std::getline(f, l)) {
      if (l[0] == 'E') evals += std::stoull(l.substr(2)); else if (l[0] == 'D') discards += std::stoull(l.substr(2));
      else if (l[0] == 'N') nt.insert(std::stoull(l.substr(2))); else if (l[0] == 'S') samples.push_back(l.substr(2));
      else if (l[0] == 'C') { std::istringstream in(l.substr(2)); std::string n; uint64_t k; in >> n >> k; cnt[n] += k; }
      else if (l[0] == 'L') { std::istringstream in(l.substr(2)); uint64_t k; std::string n; in >> k; std::getline(in, n); labels[n.substr(1)] += k; }
    }
  }
  std::ofstream o(out.empty() ? std::string("/dev/stdout") : out);
  o << "{\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"distinct_nontrivial\":" << nt.size() << ",\"planned\":" << items.size() << ",\"unreproduced\":" << skipped_unrepro << ",\"shrink_attempts\":" << main_attempts << ",\"wall\":" << now() - t0 << ",\n\"per_subcheck\":{";
  bool first = true; for (auto& s : subs()) { if (!only.empty() && s.name != only) continue; o << (first ? "" : ",") << "\"" << esc(s.name) << "\":" << cnt[s.name]; first = false; }
  o << "},\n\"labels\":{"; first = true; for (auto& c : labels) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
  o << "},\n\"known\":{"; first = true; for (auto& c : knownhits) { o << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
  o << "},\n\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "\"" << esc(samples[i].substr(0, 600)) << "\"";
  o << "],\n\"failures\":["; for (size_t i = 0; i < found.size(); i++) {
    o << (i ? "," : "") << "{\"sub\":\"" << esc(found[i].sub < 0 ? std::string("@history") : subs()[found[i].sub].name) << "\",\"tag\":\"" << esc(found[i].o.tag) << "\",\"msg\":\"" << esc(found[i].o.msg) << "\",\"note\":\"" << esc(found[i].o.note) << "\",\"tape\":[";
    for (size_t k = 0; k < found[i].o.tape.size(); k++) o << (k ? "," : "") << "\"" << found[i].o.tape[k] << "\""; o << "]}";
  }
  o << "]}\n"; o.close();
  return found.empty() ? 0 : 1;
}

#include "alloc.hh"
