#include "world.hpp"
#include <fcntl.h>
// C13: valid use of the whole API under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, the checked
// standard library, and (in another build) Valgrind's memcheck.
namespace vh {
const char* RULE =
    "random histories of 20-60 API calls, refused calls included, with long signals, deep formulas, held iterators, files and self-combination mixed in; every bit of every result is handed to write() "
    "so that memcheck sees uninitialised ones; watched by ASan+UBSan+LSan+checked iterators+assertions, and by Valgrind memcheck; non-trivial: evaluations, refused calls and at least one of the special steps were made";
static int g_null = -1;
void setup(bool) { g_null = open("/dev/null", O_WRONLY); }
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;
namespace A = stl::ast;

static void extra(Ctx& c, world::World& w, int op) {
  Rng& r = c.rng;
  switch (op) {
    case 8: { // wide formula
      int n = r.chance(.5) ? (r.chance(.5) ? 64 : r.chance(.5) ? 128 : 256) + r.range(-1, 2) : r.range(2, 300);
      c.desc("formula of " + std::to_string(n) + " operands");
      std::vector<A::Expr> v;
      for (int i = 0; i < n; i++) {
        A::Expr e = stl::Predicate(i % 3 ? "x" : "y") > i;
        v.push_back(r.chance(.2) ? e : r.chance(.3) ? stl::Always(e) : r.chance(.05) ? stl::Const(r.chance(.5)) : stl::Not(e));
      }
      A::Expr e = r.chance(.5) ? A::Expr{std::make_shared<A::Or>(v)} : A::Expr{std::make_shared<A::And>(v)};
      stl::signal::Trace t{{"x", std::make_shared<Signal>(std::vector<double>{1, -1, 2}, std::vector<double>{0, 1, 2})}, {"y", std::make_shared<Signal>(std::vector<double>{3, 0}, std::vector<double>{.5, 2})}};
      w.use(world::snap(*stl::semantics::compute_robustness(e, t)));
      w.use(fmt::to_string(e));
      break;
    }
    case 0: { // long signals
      c.desc("long signals");
      auto s = std::make_shared<Signal>(), u = std::make_shared<Signal>();
      int n = r.range(20, 120);
      auto v = gen_values(r, (size_t)n, (int)r.below(11));
      for (int i = 0; i < n; i++) { s->push_back(i * .5, v[(size_t)i]); if (i % 3 == 0) u->push_back(i * .5 + .25, -v[(size_t)i]); }
      stl::signal::Trace t{{"x", s}, {"y", u}};
      A::Interval iv{.5 * r.range(0, 4), 3. + r.range(0, 100)};
      for (A::Expr e : {stl::Always(stl::Predicate("x") > 0, iv), stl::Eventually(stl::Predicate("y") <= 1, iv), stl::Until(stl::Predicate("x") > 0, stl::Predicate("y") > 0),
                        stl::Eventually(stl::Always(stl::Predicate("x") < 1)), stl::Xor(stl::Predicate("x") > 0, stl::Predicate("y") < 0)})
        w.use(world::snap(*stl::semantics::compute_robustness(e, t)));
      break;
    }
    case 1: { // deep formula
      int n = r.chance(.1) ? r.range(200, 600) : r.range(20, 100);
      c.desc("formula of depth " + std::to_string(n));
      A::Expr e = stl::Predicate("x") > 0;
      for (int i = 0; i < n; i++) {
        switch (r.below(5)) {
          case 0: e = stl::Not(e); break;
          case 1: e = e & (stl::Predicate("x") < i); break;
          case 2: e = stl::Always(e); break;
          case 3: e = stl::Or({e, stl::Const(false), stl::Predicate("x") > 1}); break;
          default: e = stl::Until(stl::Const(true), e);
        }
      }
      stl::signal::Trace t{{"x", std::make_shared<Signal>(std::vector<double>{1, -1, 2}, std::vector<double>{0, 1, 2})}};
      w.use(world::snap(*stl::semantics::compute_robustness(e, t)));
      std::ostringstream o;
      o << e;
      w.use(o.str());
      break;
    }
    case 2: { // iterators kept while results of the signal are destroyed
      c.desc("iterators");
      auto& s = *w.sig().p;
      if (s.empty()) break;
      auto i = s.begin_at(s.begin_time()), e = s.end_at(s.end_time());
      { auto t = s.simplify(); auto u = s.shift(0); (void)t; (void)u; }
      double sum = 0;
      for (; i != e; ++i) sum += i->value + i->derivative;
      for (auto k = s.rbegin(); k != s.rend(); ++k) sum += k->time;
      std::string b;
      world::bits(b, sum);
      w.use(b);
      break;
    }
    case 3: { // the same object on both sides, and under several names
      c.desc("same object twice");
      auto s = w.sig().p;
      if (s->empty()) break;
      auto [a, b] = stl::signal::synchronize(s, s);
      w.use(world::snap(*a) + world::snap(*b));
      stl::signal::Trace t{{"x", s}, {"y", s}};
      auto e = w.ex();
      try {
        w.use(world::snap(*stl::semantics::compute_robustness(stl::Until(e, e) & e, t)));
      } catch (const std::exception& x) { w.use(x.what()); }
      Signal copy = *s;
      copy = copy;
      copy = *s;
      Signal moved = std::move(copy);
      w.use(world::snap(moved));
      break;
    }
    case 4: { // files
      const char* dir = getenv("VH_WORK");
      std::string p = std::string(dir ? dir : ".") + "/c13.stl";
      static const char* T[] = {"(assert a (> x 1))", "", "(assert a (> x", "\xff\xff\xff", "(define-formula a (or (> x 1e2) true)) (assert b a)\n; end"};
      std::string t = T[r.below(5)];
      c.desc("file: " + t);
      { std::ofstream f(p, std::ios::binary); f << t; }
      try {
        auto s = stl::parser::from_file(p);
        for (auto& [n, e] : s->assertions) { w.use(n); w.add(e); }
      } catch (const std::exception& x) { w.use(x.what()); }
      std::remove(p.c_str());
      try { (void)stl::parser::from_file(p); } catch (const std::exception& x) { w.use(x.what()); }
      break;
    }
    case 5: { // garbage text
      std::string t;
      static const char* tok[] = {"(", ")", "assert", "define-formula", "x", "1.5", "and", "or", "not", ">", "<=", "until", "true", ";", "\n", " ", "1e5", "always", "a", "((", "))", "\xc3", "e", "."};
      int n = r.range(0, 60);
      for (int i = 0; i < n; i++) { t += tok[r.below(24)]; if (r.chance(.6)) t += ' '; }
      if (r.chance(.2)) t.push_back('\0');
      c.desc("text: " + t);
      try {
        auto s = stl::parser::from_string(std::string_view(t.data(), t.size()));
        for (auto& [n2, e] : s->formulas) { w.use(n2); w.add(e); }
      } catch (const std::exception& x) { w.use(x.what()); }
      break;
    }
    case 6: { // empty signals and traces
      c.desc("empty signals");
      auto s = std::make_shared<Signal>();
      std::string b;
      world::bits(b, s->begin_time() + s->end_time());
      w.use(b + world::snap(*s->simplify()) + world::snap(*s->shift(1)) + world::snap(*s->resize(0, 1, 2)) + world::snap(*s->resize_shift(0, 1, 2, 1)));
      for (auto i = s->begin_at(0); i != s->end(); ++i) w.use("x");
      for (auto i = s->begin(); i != s->end_at(0); ++i) w.use("x");
      stl::signal::Trace t{{"x", s}, {"y", w.sig().p}}, none;
      auto e = w.ex();
      for (auto* tr : {&t, &none})
        try { w.use(world::snap(*stl::semantics::compute_robustness(e, *tr))); } catch (const std::exception& x) { w.use(x.what()); }
      try { (void)stl::signal::synchronize(s, w.sig().p); } catch (const std::exception& x) { w.use(x.what()); }
      w.use(fmt::to_string(*s));
      break;
    }
    default: { // samples directly
      Sample a{r.real(-5, 5), r.real(-5, 5), r.real(-5, 5)}, b{r.real(-5, 5), r.real(-5, 5), r.real(-5, 5)};
      std::string o;
      world::bits(o, a.interpolate(b.time) + a.area(b.time) + a.time_intersect(b) + (-a).value);
      o += (a < b) ? "<" : (a >= b) ? ">=" : "?";
      w.use(o + fmt::to_string(a));
    }
  }
}

void run_case(Ctx& c) {
  world::World w(c, false, true);
  w.sink = g_null;
  auto before = *c.counters;
  w.new_trace();
  int n = c.rng.range(20, 60);
  std::set<int> ops;
  for (int i = 0; i < n; i++) {
    if (c.rng.chance(.12)) { int op = (int)c.rng.below(9); ops.insert(op); extra(c, w, op); c.count("extra_steps"); }
    else w.step();
  }
  c.nontrivial = (*c.counters)["evaluations_done"] > before["evaluations_done"] && (*c.counters)["refusals"] > before["refusals"] && !ops.empty();
  c.hash = mix(c.index * 31 + c.seed);
}
} // namespace vh
