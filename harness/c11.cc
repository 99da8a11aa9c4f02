#include "world.hpp"
#include <sys/wait.h>
#include <unistd.h>
// C11: purity, repeatability, independence, over random histories of API calls.
namespace vh {
const char* RULE =
    "random histories of 20-60 API calls over a pool of signals, traces, formulas and earlier results; after every call every object of the pool is compared bit for bit with its snapshot, "
    "repeated evaluations, printing and parsing with the first result; and lists of evaluations over rearrangements of one trace (values permuted, exchanged, negated, times changed, signals exchanged) made in one order and, "
    "in a second process, in the opposite order, compared bit for bit; non-trivial: at least one evaluation was repeated after other calls";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}

using namespace gen;

// The results of a list of evaluations do not depend on the order in which they are made.
static void orders(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.max_samples = 7;
  TraceG g = gen_trace(r, to);
  const char* nm[] = {"x", "y", "z"};
  for (size_t i = 0; i < g.names.size(); i++) g.names[i] = nm[i];
  c.desc("orders: " + g.str());
  FormulaGen fg{r, g, {}};
  std::vector<stl::ast::Expr> fs;
  for (int i = r.range(1, 3); i > 0; i--) { FP f = fg.make(r.range(1, 3)); c.desc("formula: " + str(f)); fs.push_back(to_expr(f, &r)); }
  if (r.chance(.5)) {
    auto atom = [&]() -> stl::ast::Expr { auto p = stl::Predicate(g.names[r.below(g.names.size())]); return r.chance(.5) ? p > 0 : p < r.range(-1, 1); };
    auto x = atom(), y = atom();
    fs.push_back(r.chance(.5) ? stl::Until(x, y) : r.chance(.5) ? stl::Always(x | y) : stl::Eventually(x & y));
  }
  struct Job { size_t f; TraceG g; stl::signal::Trace t; };
  std::vector<Job> jobs;
  TraceG cur = g;
  for (int i = r.range(3, 7); i > 0; i--) {
    TraceG h = r.chance(.6) ? g : cur;
    auto& s = h.sig[r.below(h.sig.size())];
    switch (r.below(9)) {
      case 0: for (size_t a = 0, b = s.size() - 1; a < b; a++, b--) std::swap(s[a].second, s[b].second); break;
      case 1: std::swap(s[r.below(s.size())].second, s[r.below(s.size())].second); break;
      case 2: for (auto& p : s) p.second = -p.second; break;
      case 3: { auto& p = s[r.below(s.size())].second; auto& q = s[r.below(s.size())].second; double d = r.range(1, 3); p += d; q -= d; break; }
      case 4: s[r.below(s.size())].second += r.chance(.5) ? 1 : 1e-3; break;
      case 5: if (s.size() > 2) { size_t k = (size_t)r.range(1, (int)s.size() - 2); double t = s[k - 1].first + (s[k + 1].first - s[k - 1].first) * r.unit(); if (t > s[k - 1].first && t < s[k + 1].first) s[k].first = t; } break;
      case 6: std::swap(h.sig[r.below(h.sig.size())], h.sig[r.below(h.sig.size())]); break;
      case 7: if (s.size() > 2) s.erase(s.begin() + r.range(1, (int)s.size() - 2)); break;
      default: for (auto& q : h.sig) for (auto& p : q) p.first += 16; break;
    }
    bool ok = true;
    for (auto& q : h.sig) for (size_t k = 1; k < q.size(); k++) ok = ok && q[k].first > q[k - 1].first;
    if (!ok) continue;
    cur = h;
    c.desc(h.str());
    auto t = h.build();
    for (int n = r.range(1, 2); n > 0; n--) jobs.push_back({r.below(fs.size()), h, t});
  }
  auto one = [&](const Job& j) -> uint64_t {
    std::string s;
    try { s = world::snap(*stl::semantics::compute_robustness(fs[j.f], j.t)); } catch (const std::exception& x) { s = std::string("threw ") + x.what(); }
    return hash_str(s, 5);
  };
  std::vector<uint64_t> here(jobs.size()), there(jobs.size());
  int fd[2];
  if (jobs.empty() || pipe(fd)) throw Skip{};
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("harness: fork");
  if (pid == 0) {
    close(fd[0]);
    for (size_t i = jobs.size(); i-- > 0;) there[i] = one(jobs[i]);
    const char* p = (const char*)there.data();
    size_t n = there.size() * 8;
    while (n) { ssize_t k = write(fd[1], p, n); if (k <= 0) _exit(9); p += k; n -= (size_t)k; }
    _exit(0);
  }
  close(fd[1]);
  char* p = (char*)there.data();
  size_t n = there.size() * 8;
  while (n) { ssize_t k = read(fd[0], p, n); if (k <= 0) break; p += k; n -= (size_t)k; }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (st || n) c.fail("order-crash", "the same evaluations made in the opposite order ended the process (status " + std::to_string(st) + ")");
  for (size_t i = 0; i < jobs.size(); i++) here[i] = one(jobs[i]);
  for (size_t i = 0; i < jobs.size(); i++)
    if (here[i] != there[i]) { std::ostringstream o; o << fs[jobs[i].f]; c.fail("order", "the result of " + o.str() + " over" + jobs[i].g.str() + "\ndepends on what was evaluated before"); }
  c.count("evaluations_compared_across_orders", jobs.size());
}

// Results do not depend on how many calls, refused or not, were made before.
static void many(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.max_samples = 6;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  FP f = fg.make(r.range(1, 3));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  c.desc(g.str());
  c.desc("formula: " + str(f));
  auto good = to_expr(f, &r);
  auto t = g.build();
  const std::string text = "(define-formula p (> x 1.5)) (assert q (until p (not p)))";
  auto shot = [&] {
    std::ostringstream o;
    o << good << world::snap(*stl::semantics::compute_robustness(good, t));
    const auto spec = stl::parser::from_string(text);
    for (auto& [n, x] : spec->assertions) o << n << x;
    return o.str();
  };
  const std::string before = shot();
#ifdef VH_SANITIZED
  int n = r.range(100, 1500);
#else
  int n = (int)std::pow(10., r.real(2, 4.6));
#endif
  stl::ast::Expr bad = stl::Predicate("no such signal") > 1;
  for (int i = r.range(0, 8); i > 0; i--) bad = r.chance(.5) ? stl::Not(bad) : r.chance(.3) ? stl::Or({stl::Predicate(g.names[0]) > 0, bad}) : stl::Until(stl::Predicate(g.names[0]) > 0, bad);
  stl::ast::Expr small = stl::Predicate(g.names[0]) > 0;
  for (int i = r.range(0, 3); i > 0; i--) small = r.chance(.5) ? stl::Not(small) : stl::Always(small);
  static const char* texts[] = {"(assert a (not (not (not", "(assert a (and (or true", "(assert a undefined)", "(assert a (> x 99999999999999999999))", "(define-formula a true) (define-formula a true)", "(assert a (> x 1e999))", "junk"};
  const char* wrong = texts[r.below(7)];
  const int kind = (int)r.below(5);
  static const char* what[] = {"refused evaluations", "refused specifications", "refused lookups", "evaluations", "specifications"};
  c.desc(std::to_string(n) + " " + what[kind]);
  const auto& s = t.begin()->second;
  for (int i = 0; i < n; i++) {
    bool threw = false;
    try {
      switch (kind) {
        case 0: (void)stl::semantics::compute_robustness(bad, t); break;
        case 1: (void)stl::parser::from_string(wrong); break;
        case 2: (void)s->at(s->end_time() + 1); break;
        case 3: (void)stl::semantics::compute_robustness(small, t); break;
        default: (void)stl::parser::from_string(text); break;
      }
    } catch (const std::exception&) { threw = true; }
    if (threw != (kind < 3)) c.fail("many-calls", std::string(threw ? "refused" : "not refused") + " after " + std::to_string(i) + " " + what[kind]);
  }
  std::string after;
  try { after = shot(); } catch (const std::exception& x) { after = std::string("threw ") + x.what(); }
  if (after != before) c.fail("many-calls", "after " + std::to_string(n) + " " + what[kind] + ", the result is different: " + after.substr(0, 200));
  c.count("calls_in_a_row", (uint64_t)n);
}

void run_case(Ctx& c) {
  if (c.rng.chance(.005)) { many(c); c.nontrivial = true; c.hash = mix(c.index * 31 + c.seed); return; }
  if (c.rng.chance(.1)) { orders(c); c.nontrivial = true; c.hash = mix(c.index * 31 + c.seed); return; }
  world::World w(c, true, true);
  auto& k = *c.counters;
  uint64_t rep = k["evaluations_repeated"], ev = k["evaluations_done"];
  w.new_trace();
  if (c.rng.chance(.5)) w.new_trace();
  int n = c.rng.range(20, 60);
  for (int i = 0; i < n; i++) w.step();
  c.nontrivial = k["evaluations_repeated"] > rep && k["evaluations_done"] > ev;
  c.hash = mix(c.index * 31 + c.seed);
}
} // namespace vh
