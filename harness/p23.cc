// P23: the command-line tools report consistent, reproducible results.
#include "cli.hh"
#include "expr.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/multiobjective/functions/function.hh"
using namespace cli; using hnco::random::Generator; namespace ctl = hnco::function::controller; namespace hm = hnco::map;
struct Capture { std::ostringstream o; std::streambuf *old; Capture(): old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
static Args seed_args(Gen& g, unsigned& s) { s = g.chance(1, 6) ? g.seed32() : unsigned(g.below(1000)); return {"--seed", std::to_string(s)}; }
#define ENDED(r, args) REQUIRE((r).ended(), "crash", join(args) << ": " << (r).why())

// Value modifiers and what they do
struct Mod { Args a; std::function<double(double)> f = [](double v) { return v; }; bool noise = false; std::string name; };
static Mod gen_mod(Gen& g, bool noisy) {
  Mod m; if (noisy && g.chance(1, 8)) { m.noise = true; m.a = m.a + Args{"--prior-noise", "--pn-neighborhood", std::to_string(g.below(2))}; if (g.flag()) m.a.push_back("--pn-allow-no-mutation"); }
  std::function<double(double)> e = m.f; if (g.chance(1, 4)) { static const std::vector<std::pair<std::string, std::function<double(double)>>> es{{"2*x+1", [](double v) { return 2 * v + 1; }}, {"-x", [](double v) { return -v; }}, {"x*x", [](double v) { return v * v; }}, {"abs(x-3)", [](double v) { return std::fabs(v - 3); }}, {"x", [](double v) { return v; }}}; auto& p = g.pick(es); e = p.second; m.a.push_back("--parsed-modifier"); if (p.first != "x" || g.flag()) m.a = m.a + Args{"--expression", p.first}; }
  bool neg = g.chance(1, 4); if (neg) m.a.push_back("--minimize"); m.f = [e, neg](double v) { double w = e(v); return neg ? -w : w; };
  if (noisy && g.chance(1, 8)) { m.noise = true; m.a.push_back("--additive-gaussian-noise"); if (g.flag()) m.a = m.a + Args{"--noise-stddev", num(g.real(0.1, 3))}; }
  return m;
}
// Modifiers with their parameters, as objects of the library around a given function
struct Around { Args a; std::vector<std::function<hnco::function::Function *(hnco::function::Function *, std::vector<std::shared_ptr<void>>&)>> w; };
static Around gen_around(Gen& g, int n) {
  namespace mo = hnco::function::modifier; typedef hnco::function::Function Fn0; typedef std::vector<std::shared_ptr<void>> Keep0; Around r; Opt o(g);
  if (g.chance(1, 3)) {
    o.a.push_back("--prior-noise"); int k = o.I("--pn-neighborhood", 0, g.below(4)), rad = 2; bool anm = false, with = false; double rate = 0; if (k == 1 || g.chance(1, 4)) { anm = o.F("--pn-allow-no-mutation"); with = g.flag(); if (with) rate = o.D("--pn-mutation-rate", 0, g.real(0.05, 0.9), true); } if (k >= 2 || g.chance(1, 4)) rad = o.I("--pn-radius", 2, g.irange(1, n), n < 2);
    r.w.push_back([=](Fn0 *f, Keep0& keep) -> Fn0 * { std::shared_ptr<hnco::neighborhood::Neighborhood> h; if (k == 0) h.reset(new hnco::neighborhood::SingleBitFlip(n)); else if (k == 1) { auto b = std::make_shared<hnco::neighborhood::StandardBitMutation>(n); b->set_allow_no_mutation(anm); if (with) b->set_mutation_rate(rate); h = b; } else if (k == 2) h.reset(new hnco::neighborhood::HammingBall(n, rad)); else h.reset(new hnco::neighborhood::HammingSphere(n, rad)); auto p = std::make_shared<mo::PriorNoise>(f, h.get()); keep.push_back(h); keep.push_back(p); return p.get(); });
  }
  if (g.chance(1, 3)) { o.a.push_back("--parsed-modifier"); std::string e = "x"; if (g.chance(3, 4)) { e = g.pick(std::vector<std::string>{"2*x+1", "-x", "x^2", "abs(x-3)", "cos(x)"}); o.a = o.a + Args{"--expression", e}; } r.w.push_back([=](Fn0 *f, Keep0& keep) -> Fn0 * { auto p = std::make_shared<mo::ParsedModifier>(f, e); keep.push_back(p); return p.get(); }); }
  if (g.chance(1, 3)) { o.a.push_back("--minimize"); r.w.push_back([](Fn0 *f, Keep0& keep) -> Fn0 * { auto p = std::make_shared<mo::OppositeFunction>(f); keep.push_back(p); return p.get(); }); }
  if (g.chance(1, 3)) { o.a.push_back("--additive-gaussian-noise"); double sd = o.D("--noise-stddev", 1, g.real(0.1, 3)); r.w.push_back([=](Fn0 *f, Keep0& keep) -> Fn0 * { auto p = std::make_shared<mo::AdditiveGaussianNoise>(f, sd); keep.push_back(p); return p.get(); }); }
  r.a = o.a; return r;
}
// Coordinate changes drawn by the tool itself
struct MapOpt { Args a; int kind = 0, n = 0; std::function<std::shared_ptr<hm::Map>()> make; };
static MapOpt gen_map(Gen& g, int out) {
  MapOpt m; m.n = out; m.kind = g.irange(1, 6); int k = m.kind; Opt o(g); o.a = Args{g.flag() ? "-M" : "--map", std::to_string(k), "--map-random"};
  switch (k) {
  case 1: m.make = [=]() { auto q = std::make_shared<hm::Translation>(); q->random(out); return q; }; break;
  case 2: m.make = [=]() { auto q = std::make_shared<hm::Permutation>(); q->random(out); return q; }; break;
  case 3: m.make = [=]() -> std::shared_ptr<hm::Map> { static std::vector<std::shared_ptr<hm::Map>> keep; auto p = std::make_shared<hm::Permutation>(); auto t = std::make_shared<hm::Translation>(); p->random(out); t->random(out); if (keep.size() > 100) keep.clear(); keep.push_back(p); keep.push_back(t); return std::make_shared<hm::MapComposition>(p.get(), t.get()); }; break;
  case 4: case 5: { bool sur = g.flag(); int in = sur ? g.irange(out, out + 6) : g.irange(1, out + 6); m.n = in = o.I("--map-input-size", 100, in, true); if (sur) o.a.push_back("--map-surjective"); m.make = [=]() -> std::shared_ptr<hm::Map> { if (k == 4) { auto q = std::make_shared<hm::LinearMap>(); q->random(out, in, sur); return q; } auto q = std::make_shared<hm::AffineMap>(); q->random(out, in, sur); return q; }; break; }
  default: { int len = o.I("--map-ts-length", 10, g.irange(0, 12)), mode = o.I("--map-ts-sampling-mode", 0, g.below(6)); if (out < 2) throw pbt::Discard{}; m.make = [=]() { auto q = std::make_shared<hm::TsAffineMap>(); q->random(out, len, mode); return q; }; }
  }
  m.a = o.a; return m;
}
static std::string last_line(const std::string& s) { size_t e = s.find_last_not_of('\n'); if (e == std::string::npos) return ""; size_t b = s.rfind('\n', e); return s.substr(b == std::string::npos ? 0 : b + 1, e + 1 - (b == std::string::npos ? 0 : b + 1)); }
static std::string json_part(const std::string& s) { size_t b = s.find("{\n"); if (b == std::string::npos) return ""; size_t e = s.find("\n}\n", b); return e == std::string::npos ? "" : s.substr(b, e + 3 - b); }
static double slack(double v) { return 2e-5 * (1 + std::fabs(v)); }

PBT(run, 500, 6000) { // whole runs with wrappers: reproducible, consistent, within budget
  Fun f = gen_fun(g); MapOpt mp; mp.n = f.n; bool mapped = g.chance(1, 3); if (mapped) mp = gen_map(g, f.n); Mod md = gen_mod(g, true); if (f.noisy) md.noise = true; unsigned s; Args base = f.a + mp.a + md.a + seed_args(g, s); int n = mp.n;
  int T = g.chance(1, 3) ? 0 : g.irange(1, 40); Alg al = gen_alg(g, n, T, g.chance(1, 4)); bool cache = g.chance(1, 5), cb = cache && (al.budget_only || T == 0 || g.flag()); bool restart = !al.budget_only && al.id != 0 && g.chance(1, 6); if (restart && cache) cb = true;
  long budget = 10000; Args ctrl; if (T > 0 && !al.budget_only && !restart && g.chance(1, 5)) { budget = 0; ctrl = ctrl + Args{"-b", "0"}; } else { budget = g.irange(1, 300); ctrl = ctrl + Args{g.flag() ? "-b" : "--budget", std::to_string(budget)}; } if (cache) ctrl.push_back("--cache"); if (cb) ctrl.push_back("--cache-budget");
  double target = INFINITY; bool stop = false; int goal = g.below(4); if (goal == 1) { Res k = run("hnco", base + Args{"--fn-has-known-maximum"}); ENDED(k, base); REQUIRE(k.code == 0 && (k.out == "yes\n" || k.out == "no\n"), "known-maximum", k.out); if (k.out == "yes\n") { stop = true; ctrl.push_back("--stop-on-maximum"); Res m = run("hnco", base + Args{"--fn-get-maximum"}); ENDED(m, base); REQUIRE(m.code == 0, "maximum", m.why()); target = std::atof(m.out.c_str()); } } else if (goal == 2) { stop = true; BV x = g.rawbits(f.n); target = std::floor(md.f(f.ref(x)) + g.irange(-2, 3)); if (!(std::fabs(target) < 1e300)) target = 0; ctrl = ctrl + Args{"--target", num(target)}; }
  if (g.chance(1, 5)) ctrl.push_back("--log-improvement"); if (restart) ctrl.push_back("--restart"); Args rest = ctrl + al.a, save{"--save-solution", "--solution-path", path("sol"), "--save-results", "--results-path", path("res"), "--save-description", "--description-path", path("desc"), "--print-results", "--print-solution"}; Args all = base + rest + save; g.note() << join(base + rest); g.nontrivial(n > 1); g.label("A" + std::to_string(al.id)); g.label("F" + f.name); if (mapped) g.label("M" + std::to_string(mp.kind));
  Res a = run("hnco", all); ENDED(a, all); REQUIRE(a.code == 0 || (stop && (a.code == 2 || a.code == 3)), "status", a.why()); std::string sol = slurp_file(path("sol")), res = slurp_file(path("res")), desc = slurp_file(path("desc"));
  unlink(path("sol").c_str()); unlink(path("res").c_str()); unlink(path("desc").c_str()); Args again = all; if (g.flag()) std::rotate(again.begin(), again.begin() + (all.size() - save.size()), again.end()); Res b = run("hnco", again); ENDED(b, all); REQUIRE(a.out == b.out && a.code == b.code, "not-reproducible", a.out << " then " << b.out); REQUIRE(sol == slurp_file(path("sol")) && res == slurp_file(path("res")) && desc == slurp_file(path("desc")), "files-not-reproducible", "");
  std::string js = json_part(a.out); REQUIRE(js == res, "results-file", a.out << " / " << res); Results r = parse(js); REQUIRE(r.ok, "results", a.out); REQUIRE(last_line(a.out) + "\n" == sol, "solution-file", sol << " / " << a.out); BV x; for (char c : sol) if (c == '0' || c == '1') x.push_back(c == '1'); REQUIRE(int(x.size()) == n && sol == text(x) + "\n", "solution", sol << " for " << n << " bits");
  REQUIRE(r.evals >= 1 && r.evals <= r.total, "evaluations", js); if (budget > 0) REQUIRE(r.total <= budget, "budget", r.total << " > " << budget); REQUIRE((r.lookup >= 0) == cache && r.lookup <= 1, "lookup-ratio", js);
  REQUIRE((r.success >= 0) == stop, "success-field", js); if (stop) { REQUIRE((r.success == 1) == (a.code == 0), "success-status", js << a.code); if (r.success == 1) REQUIRE(r.value >= target - slack(target), "false-success", js << " target " << target); else REQUIRE(r.value < target + slack(target), "missed-success", js << " target " << target); if (a.code) REQUIRE(a.code == (goal == 1 ? 2 : 3), "status", a.code); }
  Args quiet = g.flag() ? ctrl : Args{}; quiet.erase(std::remove(quiet.begin(), quiet.end(), "--log-improvement"), quiet.end()); Res l = run("hnco", base + quiet + Args{"--load-solution", "--solution-path", path("sol"), "--print-results"}); ENDED(l, base); REQUIRE(l.code == 0, "load", l.why()); if (!md.noise) { REQUIRE(l.out == r.vtext + "\n", "loaded-value", "reported " << r.vtext << ", loaded solution gives " << l.out); if (!mapped) REQUIRE(six(md.f(f.ref(x))) == r.vtext, "value", six(md.f(f.ref(x))) << " reported " << r.vtext); }
  if (f.noisy) return; Res d = run("hnco", base + Args{"--load-solution", "--solution-path", path("sol"), "--print-description"}); ENDED(d, base); REQUIRE(d.code == 0 && d.out == desc, "description", d.out << " / " << desc);
}
PBT(threads, 120, 1500) { // any number of threads gives the single-threaded result
  Fun f = gen_fun(g); if (f.noisy) throw pbt::Discard{}; MapOpt mp; mp.n = f.n; if (g.chance(1, 3)) mp = gen_map(g, f.n); Mod md = gen_mod(g, false); unsigned s; int T = g.chance(1, 3) ? 0 : g.irange(1, 20); Alg al = gen_alg(g, mp.n, T, false, [](int i) { return (i >= 310 && i <= 400) || (i >= 500 && i <= 612) || (i >= 900 && i <= 1100); }); Args all = f.a + mp.a + md.a + seed_args(g, s) + Args{"-b", std::to_string(g.irange(30, 400))} + al.a + Args{"--print-results", "--print-solution"}; if (g.chance(1, 3)) all.push_back("--log-improvement"); if (g.chance(1, 4)) all.push_back("--cache"); if (T == 0) all.push_back("--cache-budget"); if (g.chance(1, 4)) all = all + Args{"--target", num(std::floor(md.f(f.ref(g.rawbits(f.n)))))}; g.note() << join(all); g.nontrivial(mp.n > 1); g.label("A" + std::to_string(al.id));
  Res a = run("hnco", all); ENDED(a, all); int k = g.irange(2, 6); Res b = run("hnco", all + Args{"--num-threads", std::to_string(k)}); ENDED(b, all); REQUIRE(a.code == b.code && a.out == b.out, "threads", k << " threads: " << b.out << b.code << " one thread: " << a.out << a.code);
}
PBT(library, 700, 9000) { // a run is the run of the algorithm and parameters that the options name
  Fun f = gen_fun(g); if (!f.f) throw pbt::Discard{}; MapOpt mp; mp.n = f.n; bool mapped = g.chance(1, 4); if (mapped) mp = gen_map(g, f.n); unsigned s; int n = mp.n, T = g.chance(1, 3) ? 0 : g.irange(1, 40); bool logs = g.flag(); Alg al = gen_alg(g, n, T, logs); long budget = al.budget_only || T == 0 || g.flag() ? g.irange(1, 400) : 0; bool restart = budget > 0 && !al.budget_only && al.id != 0 && g.chance(1, 6); bool li = logs && g.chance(1, 4); Around ar; if (g.flag()) ar = gen_around(g, n);
  Args all = f.a + mp.a + ar.a + seed_args(g, s) + Args{"-b", std::to_string(budget)} + al.a + Args{"--print-results", "--print-solution"}; if (restart) all.push_back("--restart"); if (li) all.push_back("--log-improvement"); g.note() << join(all); g.nontrivial(n > 1); g.label("A" + std::to_string(al.id));
  Res a = run("hnco", all); ENDED(a, all); REQUIRE(a.code == 0, "status", a.why());
  Generator::set_seed(s); Generator::reset(); std::shared_ptr<hm::Map> m; std::shared_ptr<hnco::function::Function> top; hnco::function::Function *fn = f.f.get(); if (mapped) { m = mp.make(); top.reset(new hnco::function::modifier::FunctionMapComposition(fn, m.get())); fn = top.get(); } std::vector<std::shared_ptr<void>> keep; for (auto& w : ar.w) fn = w(fn, keep);
  ctl::ProgressTracker tr(fn); tr.set_log_improvement(li); tr.set_record_bit_vector(true); std::unique_ptr<ctl::OnBudgetFunction> ob; hnco::function::Function *t = &tr; if (budget > 0) { ob.reset(new ctl::OnBudgetFunction(t, budget)); t = ob.get(); }
  alg::Inst in = al.make(); hnco::logging::ProgressTrackerContext cx(&tr); in.a->set_log_context(&cx); std::unique_ptr<hnco::algorithm::Restart> rs; hnco::algorithm::Algorithm *A = in.a.get(); if (restart) { rs.reset(new hnco::algorithm::Restart(A)); A = rs.get(); } std::string log; { Capture c; std::vector<hnco::function::Function *> fs{t}; try { A->maximize(fs); } catch (hnco::exception::LastEvaluation&) {} log = c.o.str(); }
  auto li_ = tr.get_last_improvement(); Results r = parse(a.out); REQUIRE(r.ok, "results", a.out); REQUIRE(r.total == tr.get_num_calls() && r.evals == li_.num_evaluations && r.vtext == six(li_.solution.second), "results", a.out << " the library: value " << six(li_.solution.second) << " after " << li_.num_evaluations << " of " << tr.get_num_calls()); REQUIRE(last_line(a.out) == text(li_.solution.first), "solution", a.out << " the library: " << text(li_.solution.first)); size_t js = a.out.find("{\n  \"value\""); REQUIRE(a.out.substr(0, js) == log, "log", "logged\n" << a.out.substr(0, js).substr(0, 500) << "the library\n" << log.substr(0, 500));
}
PBT(values, 500, 6000) { // functions, maps and modifiers: the value printed for a solution; sizes and maxima
  Fun f = gen_fun(g, 40); MapOpt mp; mp.n = f.n; bool mapped = g.chance(1, 3); if (mapped) mp = gen_map(g, f.n); Mod md = gen_mod(g, false); unsigned s; Args base = f.a + mp.a + md.a + seed_args(g, s); int n = mp.n; g.note() << join(base); g.nontrivial(n > 1); g.label("F" + f.name); g.label("M" + std::to_string(mp.kind)); std::shared_ptr<hm::Map> m; if (mapped) { Generator::set_seed(s); Generator::reset(); m = mp.make(); }
  for (int t = 0; t < 2; t++) { BV x = g.bits(n), y(f.n); if (m) m->map(x, y); else y = x; double want = md.f(f.ref(y)); if (std::isnan(want)) { g.label("tie"); continue; } std::string sp = text(x); spit(path("in"), sp + (g.flag() ? "\n" : "")); Res r = run("hnco", base + Args{"--load-solution", "--solution-path", path("in"), "--print-results"}); ENDED(r, base); REQUIRE(r.code == 0 && r.out == six(want) + "\n", "value", "at " << text(x) << ": " << r.out << " instead of " << six(want) << " " << r.why()); }
  switch (g.below(4)) {
  case 0: { Res r = run("hnco", base + Args{"--fn-get-bv-size"}); ENDED(r, base); REQUIRE(r.code == 0 && r.out == std::to_string(n) + "\n", "size", r.out << " instead of " << n); break; }
  case 1: { Res r = run("hnco", base + Args{"--map-display"}); ENDED(r, base); REQUIRE(r.code == 0, "map-display", r.why()); std::ostringstream o; if (m) m->display(o); REQUIRE(r.out == o.str(), "map-display", r.out << " instead of " << o.str()); break; }
  case 2: { if (!f.f || mapped || md.a.size()) break; Res r = run("hnco", base + Args{"--fn-display"}); ENDED(r, base); std::ostringstream o; f.f->display(o); REQUIRE(r.code == 0 && r.out == o.str(), "display", r.out << " instead of " << o.str()); Res q = run("hnco", base + Args{"--fn-provides-incremental-evaluation"}); REQUIRE(q.code == 0 && q.out == (f.f->provides_incremental_evaluation() ? "yes\n" : "no\n"), "incremental", q.out); break; }
  default: { if (!f.f || md.a.size()) break; bool known = f.f->has_known_maximum() && (!m || m->is_surjective()); Res r = run("hnco", base + Args{"--fn-has-known-maximum"}), q = run("hnco", base + Args{"--fn-get-maximum"}); ENDED(r, base); ENDED(q, base); REQUIRE(r.code == 0 && r.out == (known ? "yes\n" : "no\n"), "known", r.out); if (known) REQUIRE(q.code == 0 && q.out == six(f.f->get_maximum()) + "\n", "maximum", q.out << " instead of " << f.f->get_maximum()); else REQUIRE(q.code == 1 && !q.err.empty(), "unknown-maximum", q.why()); }
  }
}
PBT(concrete, 150, 2000) { // --concrete-solution gives the point of the function itself
  Fun f = gen_fun(g); if (f.noisy) throw pbt::Discard{}; MapOpt mp = gen_map(g, f.n); Mod md = gen_mod(g, false); unsigned s; Args base = f.a + mp.a + md.a + seed_args(g, s) + Args{"-A", "300", "-b", std::to_string(g.irange(1, 100)), "--print-results", "--print-solution", "--save-solution", "--solution-path", path("sol")}; g.note() << join(base); g.nontrivial(f.n > 1); g.label("M" + std::to_string(mp.kind));
  Res a = run("hnco", base), c = run("hnco", base + Args{"--concrete-solution", "--save-description", "--description-path", path("desc")}); ENDED(a, base); ENDED(c, base); REQUIRE(a.code == 0 && c.code == 0, "status", a.why() << c.why()); REQUIRE(json_part(a.out) == json_part(c.out), "results", a.out << c.out); BV x, y; for (char ch : last_line(a.out)) x.push_back(ch == '1'); for (char ch : last_line(c.out)) y.push_back(ch == '1'); REQUIRE(last_line(c.out) + "\n" == slurp_file(path("sol")), "solution-file", ""); REQUIRE(int(y.size()) == f.n && int(x.size()) == mp.n, "size", y.size() << " instead of " << f.n);
  Generator::set_seed(s); Generator::reset(); auto m = mp.make(); BV z(f.n); m->map(x, z); REQUIRE(z == y, "image", text(y) << " instead of " << text(z)); Results r = parse(c.out); REQUIRE(r.vtext == six(md.f(f.ref(y))), "value", r.vtext << " instead of " << six(md.f(f.ref(y))));
  Res d = run("hnco", f.a + Args{"--load-solution", "--solution-path", path("sol"), "--print-description"}); ENDED(d, base); REQUIRE(d.code == 0 && d.out == slurp_file(path("desc")), "description", slurp_file(path("desc")) << " instead of " << d.out);
}
// Parsed functions
static int bitlen(unsigned long v) { int b = 0; while (v) { b++; v >>= 1; } return b; }
struct Dom { int kind = 0; long a = 0, b = 0; double lo = 0, hi = 0; int bits = 0; std::vector<double> set; std::string text; };
static double decode(const Dom& d, const BV& x, int s) { if (d.kind == 2) { double f = 0; for (int i = 0; i < d.bits; i++) if (x[s + i]) f += std::ldexp(1.0, -(i + 1)); return d.lo + (d.hi - d.lo) * f; } unsigned long u = 0; for (int i = 0; i < d.bits; i++) u |= (unsigned long)x[s + i] << i; if (d.kind == 3) return d.set[std::min<unsigned long>(u, d.set.size() - 1)]; return double(d.a + long(std::min<unsigned long>(u, d.b - d.a))); }
static Dom gen_dom(Gen& g, int kind) { Dom d; d.kind = kind; std::ostringstream o; if (kind <= 1) { d.a = g.range(-12, 12); d.b = d.a + g.range(1, 20); d.bits = std::max(1, bitlen(d.b - d.a)); o << (kind ? "long(" : "int(") << d.a << ", " << d.b << ")"; } else if (kind == 2) { d.lo = double(g.range(-8, 8)) / 4; d.hi = d.lo + (1 << g.below(4)); d.bits = g.irange(1, 8); o << "double(" << d.lo << ", " << d.hi; if (g.flag()) o << ", size = " << d.bits; else o << ", precision = " << num(std::ldexp(d.hi - d.lo, -d.bits)); o << ")"; } else { std::set<double> s; int k = g.irange(1, 6); for (int i = 0; i < k; i++) s.insert(double(g.range(-20, 20)) / 4); d.set.assign(s.begin(), s.end()); d.bits = std::max(1, bitlen(d.set.size() - 1)); o << "set("; for (size_t i = 0; i < d.set.size(); i++) o << (i ? ", " : "") << d.set[i]; o << ")"; } d.text = o.str(); return d; }
typedef std::complex<double> C;
// Polynomials in a, b, c with small integer coefficients (exact in binary arithmetic)
struct Poly { std::vector<int> c; std::string text; }; // c0 a + c1 b + c2 c + c3 a b + c4 c c + c5
static Poly gen_poly(Gen& g, int nv, bool first) { Poly p; p.c.resize(6); for (auto& x : p.c) x = g.irange(-3, 3); if (first) for (int i = 0; i < nv; i++) if (p.c[i] == 0) p.c[i] = 1; if (nv < 2) p.c[1] = p.c[3] = 0; if (nv < 3) p.c[2] = p.c[4] = 0; if (!first) for (auto& x : p.c) {} static const char *t[] = {"a", "b", "c", "a*b", "c*c"}; std::string s; for (int i = 0; i < 5; i++) if (p.c[i]) s += (s.empty() ? "" : " + ") + std::string("(") + std::to_string(p.c[i]) + ")*" + t[i]; s += (s.empty() ? "" : " + ") + std::string("(") + std::to_string(p.c[5]) + ")"; p.text = s; return p; }
template<class T> static T peval(const Poly& p, const std::vector<T>& v) { T r = T(p.c[5]); if (v.size() > 0) r += T(p.c[0]) * v[0]; if (v.size() > 1) r += T(p.c[1]) * v[1] + T(p.c[3]) * v[0] * v[1]; if (v.size() > 2) r += T(p.c[2]) * v[2] + T(p.c[4]) * v[2] * v[2]; return r; }
struct Parsed { Args a; int n = 0; std::function<std::vector<double>(const BV&)> f; std::string name; };
static Parsed gen_parsed(Gen& g, bool multi, bool mo_tool) { // id = 500 + 10 * row + type
  Parsed r; int type = g.below(5), nv = g.irange(1, 3), no = multi ? g.irange(2, 3) : 1; int row = multi ? 2 + g.below(2) : g.below(2); bool ab = row % 2; int id = 500 + 10 * row + type; std::vector<Poly> ps; std::string ex; for (int k = 0; k < no; k++) { ps.push_back(gen_poly(g, nv, k == 0)); ex += (k ? " :: " : "") + ps[k].text; }
  static const char *nm[] = {"a", "b", "c"}; std::vector<Dom> ds; std::string reps; for (int i = 0; i < nv; i++) for (int h = 0; h < (type == 2 ? 2 : 1); h++) { int k = type == 0 || type == 2 ? 2 : type == 1 ? 1 : type == 3 ? 0 : g.irange(1, 3); ds.push_back(gen_dom(g, k)); reps += (reps.empty() ? "" : "; ") + std::string(nm[i]) + (type == 2 ? h ? "_im" : "_re" : "") + ": " + ds.back().text; } for (auto& d : ds) r.n += d.bits;
  if (g.chance(1, 3)) { spit(path("expr"), ex + "\n"); r.a = Args{"-F", std::to_string(id), "-p", path("expr")}; } else r.a = Args{"-F", std::to_string(id), "--fp-expression", ex}; if (g.chance(1, 3)) { spit(path("reps"), reps); r.a = r.a + Args{"--fp-representations-path", path("reps")}; } else r.a = r.a + Args{"--fp-representations", reps}; r.name = std::to_string(id);
  r.f = [=](const BV& x) { std::vector<double> out; int s = 0; std::vector<double> v; std::vector<C> z; for (auto& d : ds) { v.push_back(decode(d, x, s)); s += d.bits; } if (type == 2) for (int i = 0; i < nv; i++) z.push_back(C(v[2 * i], v[2 * i + 1])); for (auto& p : ps) { double w = type == 2 ? std::norm(peval<C>(p, z)) : peval<double>(p, v); if (ab) { if (type != 2) w = std::fabs(w); if (!mo_tool) w = -w; } out.push_back(w + 0.0); } return out; };
  return r;
}
PBT(parsed, 400, 5000) { // functions given as expressions
  Parsed p = gen_parsed(g, g.chance(1, 3), false); unsigned s; Args base = p.a + seed_args(g, s); g.note() << join(base); g.nontrivial(p.n > 1); g.label("F" + p.name); Res z = run("hnco", base + Args{"--fn-get-bv-size"}); ENDED(z, base); REQUIRE(z.code == 0 && z.out == std::to_string(p.n) + "\n", "size", z.out << " instead of " << p.n << " " << z.why());
  for (int t = 0; t < 2; t++) { BV x = g.bits(p.n); double want = 0; for (double v : p.f(x)) want += v; spit(path("in"), text(x)); Res r = run("hnco", base + Args{"--load-solution", "--solution-path", path("in"), "--print-results"}); ENDED(r, base); double got = std::atof(r.out.c_str()); REQUIRE(r.code == 0 && std::fabs(got - want) <= 2e-5 * std::fabs(want) + 1e-9, "value", "at " << text(x) << ": " << r.out << " instead of " << want << " " << r.why()); }
}
struct MoFn: hnco::multiobjective::function::Function { Parsed p; int m; MoFn(const Parsed& q, int m): p(q), m(m) {} int get_bv_size() const override { return p.n; } int get_output_size() const override { return m; } void evaluate(const BV& x, hnco::multiobjective::function::value_t& v) override { auto w = p.f(x); for (int i = 0; i < m; i++) v[i] = w[i]; } };
PBT(multiobjective, 200, 3000) { // hnco-mo: reproducible, thread-independent, the library's result, non-dominated
  Parsed p = gen_parsed(g, true, true); int m = p.f(BV(p.n, 0)).size(); unsigned s; Opt o(g); int mu = o.I("--ea-mu", 100, g.irange(3, 20)), T = o.I(o.L("-i", "--num-iterations"), 100, g.irange(1, 15), true), ts = o.I("--ea-tournament-size", 2, g.irange(2, std::min(mu - 1, 5))); double cp = o.D("--ea-crossover-probability", 0.8, g.pick(std::vector<double>{0, 0.3, 1})); bool anm = o.F("--ea-allow-no-mutation"), w = g.flag(); double rate = g.pick(std::vector<double>{0.1, 0.5, 1.0 / p.n}); if (w) o.a = o.a + Args{g.flag() ? "-m" : "--ea-mutation-rate", num(rate)};
  Args base = p.a + seed_args(g, s); Args all = base + o.a + Args{"--print-pareto-front"}; g.note() << join(all); g.nontrivial(p.n > 1); g.label("F" + p.name); Res a = run("hnco-mo", all), b = run("hnco-mo", all + (g.flag() ? Args{"--num-threads", std::to_string(g.irange(2, 5))} : Args{})); ENDED(a, all); ENDED(b, all); REQUIRE(a.code == 0, "status", a.why()); REQUIRE(a.out == b.out && b.code == 0, "not-reproducible", a.out << " then " << b.out);
  std::vector<std::vector<double>> vs; std::istringstream in(a.out); std::string line; while (std::getline(in, line)) { std::istringstream l(line); std::vector<double> v; double d; while (l >> d) v.push_back(d); REQUIRE(int(v.size()) == m, "objectives", line); vs.push_back(v); } REQUIRE(!vs.empty(), "empty", "no solution");
  for (auto& x : vs) for (auto& y : vs) { bool better = true; for (int i = 0; i < m; i++) if (!(x[i] + slack(x[i]) < y[i] - slack(y[i]))) better = false; REQUIRE(!better, "dominated", pbt::showv(x) << " dominates " << pbt::showv(y)); }
  Generator::set_seed(s); Generator::reset(); MoFn fn(p, m); hnco::multiobjective::algorithm::Nsga2 al(p.n, m, mu); al.set_allow_no_mutation(anm); al.set_crossover_probability(cp); al.set_num_iterations(T); al.set_tournament_size(ts); if (w) al.set_mutation_rate(rate); std::vector<hnco::multiobjective::function::Function *> fs{&fn}; al.minimize(fs); auto sol = al.get_solutions(); std::multiset<std::vector<double>> want, got(vs.begin(), vs.end());
  for (int i = 0; i < sol.get_size(); i++) { bool ok = true; for (int j = 0; j < sol.get_size() && ok; j++) { bool le = true, lt = false; for (int k = 0; k < m; k++) { if (sol.values[j][k] > sol.values[i][k]) le = false; if (sol.values[j][k] < sol.values[i][k]) lt = true; } if (le && lt) ok = false; } if (ok) { std::vector<double> v; for (double d : sol.values[i]) v.push_back(std::atof(six(d).c_str())); want.insert(v); } }
  REQUIRE(got == want, "front", "printed " << got.size() << " points, the library gives " << want.size());
  Res z = run("hnco-mo", base + Args{"--fn-get-output-size"}); REQUIRE(z.code == 0 && z.out == std::to_string(m) + "\n", "output-size", z.out); z = run("hnco-mo", base + Args{"--fn-get-bv-size"}); REQUIRE(z.code == 0 && z.out == std::to_string(p.n) + "\n", "size", z.out); if (g.chance(1, 3)) { z = run("hnco-mo", base + Args{"--print-pareto-front", "--fn-display"}); REQUIRE(z.code == 0 && z.out.find_first_of("abcdefghijklmnopqrstuvwxyz") != std::string::npos, "display", z.why() << z.out); }
  if (g.chance(1, 3)) { Res d = run("hnco-mo", base + o.a + Args{"--print-description"}); ENDED(d, all); size_t k = 0, q = 0; while ((q = d.out.find("Objectives:", q)) != std::string::npos) { k++; q++; } REQUIRE(d.code == 0 && k == vs.size(), "description", k << " descriptions of " << vs.size() << " points"); }
}
// Walsh coefficients by definition
static std::vector<double> wht(const std::function<double(const BV&)>& f, int n) { std::vector<double> a(1 << n); for (size_t i = 0; i < a.size(); i++) a[i] = f(from_int(i, n)); for (size_t h = 1; h < a.size(); h *= 2) for (size_t i = 0; i < a.size(); i += 2 * h) for (size_t j = i; j < i + h; j++) { double u = a[j], v = a[j + h]; a[j] = u + v; a[j + h] = u - v; } for (auto& x : a) x /= double(a.size()); return a; }
PBT(generated_functions, 350, 4000) { // ffgen: what was asked, the same with the same seed, loads in hnco
  static const std::vector<int> ids{1, 60, 70, 90, 91, 160, 161, 162, 171, 172, 190}; int id = g.pick(ids), n = g.irange(2, 10); std::string p = path("gen"); Opt o(g); unsigned s; double sd = 1, w0 = 1, d = 1, ra = 2, cc = 1, fc = 1, al = 2, eb = 1; int lg = 0, k = 3, nc = 100, nl = 3, ub = 100, nf = 100, ig = 0, rows = 10, cols = 10, ec = 10; bool pl = false, per = false; auto RSD = [&]() { sd = o.D("--stddev", 1, g.pick(std::vector<double>{0.5, 2, 10})); };
  switch (id) {
  case 1: lg = o.I("--lin-generator", 0, g.below(3)); if (lg == 0) RSD(); else { w0 = o.D("--lin-initial-weight", 1, double(g.range(-8, 8)) / 2); if (lg == 1) d = o.D("--lin-distance", 1, double(g.range(-8, 8)) / 4); else ra = o.D("--lin-ratio", 2, g.pick(std::vector<double>{0.5, 3, -1, 1})); } break;
  case 60: n = g.irange(4, 10); k = o.I("--nk-k", 3, g.irange(1, n - 1)); RSD(); break;
  case 70: n = g.irange(3, 10); nc = o.I("--ms-num-clauses", 100, g.irange(1, 40)); nl = o.I("--ms-num-literals-per-clause", 3, g.irange(1, n)); pl = o.F("--ms-planted-solution"); break;
  case 90: eb = o.D("--ep-upper-bound", 1, g.real(0.5, 3)); break;
  case 91: ub = o.I("--part-upper-bound", 100, g.irange(1, 1000)); break;
  case 160: nf = o.I("--walsh-num-features", 100, g.irange(1, 30)); RSD(); break;
  case 161: RSD(); break;
  case 162: ig = o.I("--walsh2-generator", 0, g.below(2)); if (ig == 0) RSD(); else al = o.D("--walsh2-ising-alpha", 2, g.real(0, 3)); break;
  case 171: ig = o.I("--nn1-generator", 0, g.below(4)); per = o.F("--periodic-boundary-conditions"); cc = o.D("--coupling-constant", 1, double(g.range(-8, 8)) / 4); fc = o.D("--field-constant", 1, double(g.range(-8, 8)) / 4); RSD(); break;
  case 172: ig = o.I("--nn2-generator", 0, g.below(4)); per = o.F("--periodic-boundary-conditions"); rows = o.I("--nn2-num-rows", 10, g.irange(1, 4), true); cols = o.I("--nn2-num-columns", 10, g.irange(1, 3), true); cc = o.D("--coupling-constant", 1, double(g.range(-8, 8)) / 4); fc = o.D("--field-constant", 1, double(g.range(-8, 8)) / 4); RSD(); n = rows * cols; break;
  default: ec = o.I("--sudoku-num-empty-cells", 10, g.irange(1, 81)); break;
  }
  Args all = Args{g.flag() ? "-F" : "--function", std::to_string(id), g.flag() ? "-s" : "--bv-size", std::to_string(n), g.flag() ? "-p" : "--path", p} + o.a + seed_args(g, s); g.note() << "ffgen " << join(all); g.nontrivial(true); g.label("F" + std::to_string(id));
  Res r = run("ffgen", all); ENDED(r, all); REQUIRE(r.code == 0, "status", r.why()); std::string one = slurp_file(p); unlink(p.c_str()); Res r2 = run("ffgen", all); REQUIRE(r2.code == 0 && slurp_file(p) == one && r2.out == r.out, "not-reproducible", "two files with one seed");
  if (id == 190) { int empty = 0, cells = 0; std::vector<std::string> grid; std::istringstream in(one); std::string l; while (std::getline(in, l)) if (!l.empty()) grid.push_back(l); REQUIRE(grid.size() == 9, "grid", one); for (auto& q : grid) { REQUIRE(q.size() == 9, "grid", one); for (char c : q) { cells++; if (c < '1' || c > '9') empty++; } } REQUIRE(empty == ec, "empty-cells", empty << " instead of " << ec << "\n" << one); for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) for (int a = 0; a < 9; a++) for (int b = 0; b < 9; b++) if ((i != a || j != b) && grid[i][j] >= '1' && grid[i][j] <= '9' && grid[i][j] == grid[a][b]) REQUIRE(i != a && j != b && (i / 3 != a / 3 || j / 3 != b / 3), "conflict", one); if (ec > 0) { Res z = run("hnco", Args{"-F", "190", "-p", p, "--fn-get-bv-size"}); REQUIRE(z.code == 0 && z.out == std::to_string(4 * ec) + "\n", "size", z.out << z.why()); } return; }
  using namespace hnco::function; cat::FP f; switch (id) { case 1: f = loaded<LinearFunction>(p); break; case 60: f = loaded<NkLandscape>(p); break; case 70: f = loaded<MaxSat>(p); break; case 90: f = loaded<EqualProducts>(p); break; case 91: f = loaded<Partition>(p); break; case 160: f = loaded<WalshExpansion>(p); break; case 161: f = loaded<WalshExpansion1>(p); break; case 162: f = loaded<WalshExpansion2>(p); break; case 171: f = loaded<NearestNeighborIsingModel1>(p); break; default: f = loaded<NearestNeighborIsingModel2>(p); }
  REQUIRE(f->get_bv_size() == n, "size", f->get_bv_size() << " instead of " << n); auto F = [&](const BV& x) { return f->evaluate(x); }; BV x = g.bits(n); spit(path("in"), text(x)); Res v = run("hnco", Args{"-F", std::to_string(id), "-p", p, "--load-solution", "--solution-path", path("in"), "--print-results"}); ENDED(v, all); REQUIRE(v.code == 0 && v.out == six(F(x)) + "\n", "value", v.out << " instead of " << F(x));
  auto unit = [&](int i) { BV e(n, 0); e[i] = 1; return e; };
  if (id == 1 && lg == 1) for (int i = 0; i < n; i++) REQUIRE(F(unit(i)) == w0 + i * d, "weight", i << ": " << F(unit(i)) << " instead of " << w0 + i * d);
  if (id == 1 && lg == 2) { double w = w0; for (int i = 0; i < n; i++) { REQUIRE(F(unit(i)) == w, "weight", i << ": " << F(unit(i)) << " instead of " << w); w *= ra; } }
  if (id == 60) { auto nb = cat::nk_neighbors(*f); REQUIRE(int(nb.size()) == n, "nk", nb.size()); for (auto& b : nb) REQUIRE(int(b.size()) == k + 1, "nk-k", b.size() << " instead of " << k + 1); }
  if (id == 70) { std::istringstream in(one); std::string l; int cl = 0; std::string tok; int vn = 0, vc = 0; while (std::getline(in, l)) { if (l.empty() || l[0] == 'c') continue; std::istringstream q(l); if (l[0] == 'p') { std::string a, b; q >> a >> b >> vn >> vc; continue; } std::set<int> vars; int t, z = 0; while (q >> t && t) { vars.insert(std::abs(t)); z++; } REQUIRE(z == nl && int(vars.size()) == nl, "literals", l << " instead of " << nl); cl++; } REQUIRE(cl == nc && vn == n && vc == nc, "clauses", cl << " instead of " << nc); if (pl) { double best = 0; for (int i = 0; i < (1 << n); i++) best = std::max(best, F(from_int(i, n))); REQUIRE(best == nc, "planted", "no solution satisfies the " << nc << " clauses: " << best); } }
  if (id == 90 || id == 91) { Generator::set_seed(s); auto check = [&](hnco::function::Function& l) { for (int t = 0; t < 4; t++) { BV y = g.bits(n); REQUIRE(l.evaluate(y) == F(y), "library", F(y) << " instead of " << l.evaluate(y) << " with seed " << s); } }; if (id == 90) { EqualProducts l; l.generate(n, [&]() { return eb * Generator::uniform(); }); check(l); } else { Partition l; l.random(n, ub); check(l); } }
  if (id == 91) { double t = -F(BV(n, 0)); REQUIRE(t >= n && t <= double(n) * ub, "partition", t); for (int i = 0; i < n; i++) { BV e = unit(i); double c = (t + F(e)) / 2; if (t >= 0 && -F(e) <= t && t > double(ub) * 2) REQUIRE(c >= 1 && c <= ub, "number", c << " beyond " << ub); } }
  if (id >= 160) { auto c = wht(F, n); int cnt = 0; double sc = 0; for (double y : c) sc = std::max(sc, std::fabs(y)); for (double y : c) if (std::fabs(y) > 1e-12 * (1 + sc)) cnt++; if (id == 160) REQUIRE(cnt <= nf, "features", cnt << " > " << nf); if (id == 162 && ig == 1) { WalshExpansion2 q; q.generate_ising1_long_range(n, al); for (int t = 0; t < 6; t++) { BV y = g.bits(n); REQUIRE(q.evaluate(y) == F(y), "long-range", F(y) << " instead of " << q.evaluate(y)); } }
    if (id == 171 || id == 172) { std::map<size_t, double> cpl; auto add = [&](int i, int j) { if (i == j) cpl[0] += cc; else cpl[(size_t(1) << i) | (size_t(1) << j)] += cc; }; if (id == 171) { for (int i = 0; i + 1 < n || (per && i < n); i++) add(i, (i + 1) % n); } else for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { if (j + 1 < cols || per) add(i * cols + j, i * cols + (j + 1) % cols); if (i + 1 < rows || per) add(i * cols + j, ((i + 1) % rows) * cols + j); }
      double tol = 1e-9 * (1 + sc); if (ig == 1 || ig == 3) for (int i = 0; i < n; i++) REQUIRE(std::fabs(c[size_t(1) << i] - fc) <= tol, "field", i << ": " << c[size_t(1) << i] << " instead of " << fc); if (ig == 2 || ig == 3) for (size_t i = 1; i < c.size(); i++) if (__builtin_popcountll(i) == 2) REQUIRE(std::fabs(c[i] - (cpl.count(i) ? cpl[i] : 0)) <= tol, "coupling", i << ": " << c[i] << " instead of " << (cpl.count(i) ? cpl[i] : 0)); if (ig <= 1) for (size_t i = 1; i < c.size(); i++) if (__builtin_popcountll(i) == 2 && !cpl.count(i)) REQUIRE(std::fabs(c[i]) <= tol, "coupling", "between distant spins"); } }
  if (sd != 1) { Args two = all; for (size_t i = 0; i + 1 < two.size(); i++) if (two[i] == "--stddev") two[i + 1] = num(2 * sd); bool only = !(id == 171 || id == 172) || ig == 0; if (only) { Res q = run("ffgen", two); REQUIRE(q.code == 0, "status", q.why()); cat::FP h; switch (id) { case 1: h = loaded<LinearFunction>(p); break; case 60: h = loaded<NkLandscape>(p); break; case 160: h = loaded<WalshExpansion>(p); break; case 161: h = loaded<WalshExpansion1>(p); break; case 162: h = loaded<WalshExpansion2>(p); break; case 171: h = loaded<NearestNeighborIsingModel1>(p); break; default: h = loaded<NearestNeighborIsingModel2>(p); } for (int t = 0; t < 4; t++) { BV y = g.bits(n); REQUIRE(h->evaluate(y) == 2 * F(y), "stddev", "twice the deviation: " << h->evaluate(y) << " and " << F(y)); } } }
}
template<class M> static std::shared_ptr<M> lmap(const std::string& p) { auto m = std::make_shared<M>(); m->load(p); return m; }
PBT(generated_maps, 250, 3000) { // mapgen: what was asked, loads in hnco as the same map
  int k = g.irange(1, 6), out = g.irange(2, 14), in = out; Opt o(g); bool sur = false; int len = 10, mode = 0; if (k == 4 || k == 5) { sur = o.F("--surjective"); in = sur ? g.irange(out, out + 8) : g.irange(1, 20); } if (k == 6) { len = o.I("--ts-length", 10, g.irange(0, 12)); mode = o.I("--ts-sampling-mode", 0, g.below(6)); } std::string p = path("map"); unsigned s; Args all = Args{g.flag() ? "-M" : "--map", std::to_string(k), g.flag() ? "-x" : "--input-size", std::to_string(in), g.flag() ? "-y" : "--output-size", std::to_string(out), g.flag() ? "-p" : "--path", p} + o.a + seed_args(g, s); g.note() << "mapgen " << join(all); g.nontrivial(true); g.label("M" + std::to_string(k));
  Res r = run("mapgen", all); ENDED(r, all); REQUIRE(r.code == 0, "status", r.why()); std::string one = slurp_file(p); unlink(p.c_str()); Res r2 = run("mapgen", all); REQUIRE(r2.code == 0 && slurp_file(p) == one, "not-reproducible", "two files with one seed");
  Generator::set_seed(s); std::shared_ptr<hm::Map> m, m2; hm::Permutation pe; hm::Translation tr; switch (k) { case 1: m = lmap<hm::Translation>(p); break; case 2: m = lmap<hm::Permutation>(p); break; case 3: { std::ifstream f(p); boost::archive::text_iarchive ar(f); ar >> pe >> tr; m = std::make_shared<hm::MapComposition>(&pe, &tr); break; } case 4: m = lmap<hm::LinearMap>(p); break; case 5: m = lmap<hm::AffineMap>(p); break; default: m = lmap<hm::TsAffineMap>(p); }
  { std::string q = path("lib"); Generator::set_seed(s); switch (k) { case 1: { hm::Translation l; l.random(out); l.save(q); break; } case 2: { hm::Permutation l; l.random(out); l.save(q); break; } case 4: { hm::LinearMap l; l.random(out, in, sur); l.save(q); break; } case 5: { hm::AffineMap l; l.random(out, in, sur); l.save(q); break; } case 6: { hm::TsAffineMap l; l.random(in, len, mode); l.save(q); break; } default: q = p; } REQUIRE(slurp_file(q) == one, "library", "the file is not the one the library saves with seed " << s); if (q != p) unlink(q.c_str()); }
  REQUIRE(m->get_input_size() == in && m->get_output_size() == out, "sizes", m->get_input_size() << " " << m->get_output_size()); if (sur || k <= 3 || k == 6) REQUIRE(m->is_surjective(), "surjective", "");
  static const std::vector<int> fs{0, 10, 11}; int f = g.pick(fs); Args base{"-F", std::to_string(f), "-s", std::to_string(out), "-M", std::to_string(k), "--map-path", p}; for (int t = 0; t < 2; t++) { BV x = g.bits(in), y(out); m->map(x, y); double want; if (f == 0) want = cat::wt(y); else { hnco::function::LeadingOnes lo(out); hnco::function::Ridge ri(out); want = f == 10 ? lo.evaluate(y) : ri.evaluate(y); } spit(path("in"), text(x)); Res v = run("hnco", base + Args{"--load-solution", "--solution-path", path("in"), "--print-results"}); ENDED(v, base); REQUIRE(v.code == 0 && v.out == six(want) + "\n", "value", v.out << " instead of " << want << " " << v.why()); }
  Res d = run("hnco", base + Args{"--map-display"}); std::ostringstream o2; m->display(o2); REQUIRE(d.code == 0 && d.out == o2.str(), "display", d.out);
}
PBT(walsh, 150, 2000) { // --fn-walsh-transform: weights and relative amplitudes of the expansion
  Fun f = gen_fun(g, 8); if (f.n > 11 || f.noisy) throw pbt::Discard{}; Mod md = gen_mod(g, false); Args base = f.a + md.a; if (g.chance(1, 8)) base = base + Args{"--parsed-modifier", "--expression", g.flag() ? "x*0" : "x*0+1"}; bool cst = base.size() >= 1 && base.back().substr(0, 3) == "x*0"; g.note() << join(base); g.nontrivial(!cst);
  Res r = run("hnco", base + Args{"--fn-walsh-transform"}); ENDED(r, base); REQUIRE(r.code == 0, "status", r.why()); if (cst) { REQUIRE(r.out.empty(), "constant", r.out); return; }
  auto c = wht([&](const BV& x) { return md.f(f.ref(x)); }, f.n); double mx = 0; for (size_t i = 1; i < c.size(); i++) mx = std::max(mx, std::fabs(c[i])); if (mx < 1e-9 || !(mx < 1e300)) throw pbt::Discard{}; std::vector<double> got(f.n + 1, 0), want(f.n + 1, 0); std::istringstream in(r.out); int w; double a, prev = INFINITY; while (in >> w >> a) { REQUIRE(w >= 1 && w <= f.n, "weight", w); REQUIRE(a <= 1 + 1e-9 && a <= prev, "order", r.out); prev = a; got[w] += a; } for (size_t i = 1; i < c.size(); i++) want[__builtin_popcountll(i)] += std::fabs(c[i]) / mx; for (int i = 1; i <= f.n; i++) REQUIRE(std::fabs(got[i] - want[i]) <= 1e-5 * (1 + want[i]) + 1e-5 * c.size(), "amplitude", "weight " << i << ": " << got[i] << " instead of " << want[i]);
}
PBT(defaults, 60, 600) { // an option left out means its documented default; printed parameters are those given
  static const std::vector<std::pair<std::string, std::string>> D{{"--function", "0"}, {"--bv-size", "100"}, {"--fn-threshold", "10"}, {"--fn-num-traps", "10"}, {"--fn-prefix-length", "2"}, {"--budget", "10000"}, {"--map", "0"}, {"--algorithm", "100"}, {"--num-iterations", "0"}, {"--neighborhood", "0"}, {"--neighborhood-iterator", "0"}, {"--rls-patience", "50"}, {"--radius", "2"}, {"--sa-num-transitions", "50"}, {"--sa-num-trials", "100"}, {"--sa-initial-acceptance-probability", "0.6"}, {"--sa-beta-ratio", "1.2"}, {"--ea-mutation-rate-max", "0.5"}, {"--ea-update-strength", "1.01"}, {"--ea-success-ratio", "4"}, {"--ea-mu", "10"}, {"--ea-lambda", "100"}, {"--ea-tournament-size", "2"}, {"--ea-crossover-probability", "0.5"}, {"--ea-crossover-bias", "0.5"}, {"--ea-it-replacement", "0"}, {"--ea-it-initial-hamming-weight", "0"}, {"--population-size", "10"}, {"--selection-size", "1"}, {"--learning-rate", "0.001"}, {"--num-threads", "1"}, {"--bm-num-gs-steps", "100"}, {"--bm-num-gs-cycles", "1"}, {"--bm-sampling-mode", "1"}, {"--bm-reset-mode", "1"}, {"--hea-reset-period", "0"}, {"--hea-bound-moment", "true"}, {"--hea-randomize-bit-order", "true"}, {"--ram-ts-length", "10"}, {"--ram-ts-length-mode", "0"}};
  unsigned s; static const std::vector<int> as{10, 20, 100, 150, 160, 200, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612, 700, 800, 900, 1000, 1100}; static const std::vector<int> fs{0, 5, 10, 30, 31, 40, 41, 80, 110, 140}; Args base; if (g.chance(5, 6)) base = base + Args{"-A", std::to_string(g.pick(as))}; if (g.chance(5, 6)) base = base + Args{"-F", std::to_string(g.pick(fs))}; if (g.chance(5, 6)) base = base + Args{"-b", std::to_string(g.irange(200, 600))}; base = base + seed_args(g, s) + Args{"--print-results", "--print-solution"}; Args ex; for (auto& d : D) if (g.flag()) { bool have = (d.first == "--algorithm" && std::count(base.begin(), base.end(), "-A")) || (d.first == "--function" && std::count(base.begin(), base.end(), "-F")) || (d.first == "--budget" && std::count(base.begin(), base.end(), "-b")); if (!have) ex = ex + Args{d.first, d.second}; } g.note() << join(base) << " and " << join(ex); g.nontrivial(true);
  Res a = run("hnco", base), b = run("hnco", base + ex); ENDED(a, base); ENDED(b, base + ex); REQUIRE(a.code == 0 && a.out == b.out && a.code == b.code, "default", a.out << " with the defaults given: " << b.out);
}
PBT(invalid, 350, 4000) { // requests which cannot be met: a message and a failure status
  Fun f = gen_fun(g); std::string tool = "hnco", what; Args a; std::string bad = path("bad"); unlink(bad.c_str()); unsigned s; Args sd = seed_args(g, s); auto id = [&]() { return std::to_string(g.pick(std::vector<int>{-1, 3, 7, 99, 555, 12345, 2147483647})); };
  auto junk = [&]() { std::string t; int m = g.irange(0, 40); for (int i = 0; i < m; i++) t += g.pick(std::vector<std::string>{"22 ", "serialization::archive ", "19 ", "0 ", "1 ", "-1 ", "99999999999 ", "x", "p cnf ", "\n", "3.5 ", "nan ", ".", "%"}); return t; };
  static const std::vector<int> arch{1, 50, 60, 90, 91, 160, 161, 162, 171, 172, 200}; static const std::vector<int> files{1, 50, 60, 70, 71, 90, 91, 150, 160, 161, 162, 171, 172, 190, 200};
  switch (g.below(19)) {
  case 0: what = "unknown function"; a = Args{"-F", id()}; break;
  case 1: what = "unknown algorithm"; a = f.a + Args{"-A", id()}; break;
  case 2: what = "unknown map"; a = f.a + Args{"-M", std::to_string(g.pick(std::vector<int>{7, 99, 1000})), "--map-random"}; break;
  case 3: what = "unknown neighborhood"; a = f.a + Args{"-A", g.pick(std::vector<std::string>{"100", "200", "20"}), "-N", std::to_string(g.pick(std::vector<int>{-1, 4, 99}))}; break;
  case 4: what = "unknown neighborhood iterator"; a = f.a + Args{"-A", g.flag() ? "150" : "160", "--neighborhood-iterator", std::to_string(g.pick(std::vector<int>{-1, 2, 99}))}; break;
  case 5: what = "size"; a = Args{"-F", std::to_string(g.pick(std::vector<int>{0, 5, 10, 11, 20, 30, 80, 110, 120, 130})), "-s", g.pick(std::vector<std::string>{"0", "-1", "-100", "abc", ""})}; break;
  case 6: what = "missing function file"; a = Args{"-F", std::to_string(g.pick(files)), "-p", bad}; break;
  case 7: what = "folder in place of a file"; a = Args{"-F", std::to_string(g.pick(files)), "-p", pbt::scratch()}; break;
  case 8: { what = "junk function file"; spit(bad, junk()); a = Args{"-F", std::to_string(g.pick(arch)), "-p", bad}; break; }
  case 9: what = "missing map file"; a = f.a + Args{"-M", std::to_string(g.irange(1, 6)), "--map-path", bad}; break;
  case 10: what = "junk map file"; spit(bad, junk()); a = f.a + Args{"-M", std::to_string(g.irange(1, 6)), "--map-path", bad}; break;
  case 11: what = "missing solution"; a = f.a + Args{"--load-solution", "--solution-path", bad, "--print-results"}; break;
  case 12: { what = "solution of another size"; int m = g.irange(0, f.n + 5); if (m == f.n) m++; spit(bad, text(g.bits(m)) + "\n"); a = f.a + Args{"--load-solution", "--solution-path", bad, "--print-results"}; break; }
  case 13: what = "threads"; a = f.a + Args{"--num-threads", g.pick(std::vector<std::string>{"0", "-1", "x"})}; break;
  case 14: what = "unknown maximum"; a = Args{"-F", "80", "-s", "8", g.flag() ? "--fn-get-maximum" : "--stop-on-maximum"}; break;
  case 15: what = "bad expression"; { bool mo = g.flag(); tool = mo ? "hnco-mo" : "hnco"; a = Args{"-F", std::to_string((mo ? 520 : g.flag() ? 500 : 510) + g.pick(std::vector<int>{0, 1, 2, 3, 4})), "--fp-expression", g.pick(std::vector<std::string>{"", "a +", "(a", "a b", "a + ) b", "@", "a ** b", "::", "f(a"})}; } break;
  case 16: what = "bad representation"; a = Args{"-F", "500", "--fp-expression", "a+b", "--fp-representations", g.pick(std::vector<std::string>{"a double(0,1)", "a: double(0", "a: double(1,0)", "a: foo(0,1)", "a: double(0,1,size=x)", "a: double(x,1)", "a: int(0,1", "a: double(0,1,size=-3)", ": double(0,1)"})}; break;
  case 17: { what = "generator"; bool m = g.flag(); tool = m ? "mapgen" : "ffgen"; if (g.flag()) a = Args{m ? "-M" : "-F", g.pick(std::vector<std::string>{"-1", "99", "0", "1000"}), "-p", bad}; else a = m ? Args{"-M", std::to_string(g.irange(1, 6)), "-p", "/nonexistent-folder/x"} : Args{"-F", g.pick(std::vector<std::string>{"1", "60", "70", "90", "91", "160", "161", "162", "171", "172", "190"}), "-p", "/nonexistent-folder/x"}; break; }
  default: what = "unknown option"; tool = g.pick(std::vector<std::string>{"hnco", "hnco-mo", "ffgen", "mapgen"}); a = Args{g.pick(std::vector<std::string>{"--no-such-option", "-Z", "--bv-sizes=3"})}; break;
  }
  Args all = (what == "unknown option" ? a : a + sd); g.note() << tool << " " << join(all); g.nontrivial(true); g.label(what); if (tool == "hnco" && g.flag() && what != "missing solution") all = all + Args{"-b", "20"}; Res r = run(tool, all); REQUIRE(r.ended(), "crash", what << ": " << r.why()); REQUIRE(r.code == 1, "accepted", what << ": " << r.why() << " " << r.out.substr(0, 300)); REQUIRE(!r.err.empty(), "silent", what);
}
