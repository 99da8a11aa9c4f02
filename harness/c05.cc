#include "gen.hpp"
// C05: atoms and constants against the trace.
namespace vh {
const char* RULE =
    "random trace; every comparison against bounds drawn from sample values, integers, reals and large magnitudes compared at every breakpoint with the signed margin, and again with all "
    "other signals replaced; constants alone and inside random formulas; non-trivial: the signal has at least 2 samples";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;
using O = stl::ast::ComparisonOp;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.vast = true;
  to.many = true;
  to.max_signals = 4;
  const bool huge = r.chance(.0015);
  TraceG g = huge ? gen_huge(r) : gen_trace(r, to);
  if (r.chance(.25)) g.names = odd_names(r, g.names.size()); // names that contain one another, or look like something else
  double scale = r.chance(.1) ? std::pow(10., r.range(-150, 150)) : 1;
  if (scale != 1) for (auto& s : g.sig) for (auto& p : s) p.second *= scale;
  if (r.chance(.2)) // values next to a bound, but not on it
    for (auto& s : g.sig) for (auto& p : s) if (r.chance(.3)) {
      const double to = p.second > 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
      p.second = r.chance(.3) ? std::nextafter(p.second, r.chance(.5) ? to : -to) : p.second * (1 + r.range(-3, 3) * std::pow(10., -r.range(6, 15)));
    }
  c.desc(g.str());
  auto trace = g.build();
  FormulaGen fg{r, g, {}};
  const size_t w = r.below(g.names.size());
  const double bound = fg.bound() * (r.chance(.5) ? scale : 1);
  for (O op : {O::GT, O::GE, O::LT, O::LE}) {
    FP f = mk_pred(g.names[w], op, bound);
    c.desc("formula: " + str(f));
    stl::ast::Expr e = to_expr(f, &r);
    auto sig = stl::semantics::compute_robustness(e, trace);
    Pwl got = pwl(c, *sig, "the robustness");
    c.count("lib_evaluations");
    Pwl want;
    R v = 0;
    for (auto [t, x] : g.sig[w]) {
      want.push(t, op == O::GT || op == O::GE ? (R)x - (R)bound : (R)bound - (R)x);
      v = std::max(v, (R)std::max(std::fabs(x), std::fabs(bound)));
    }
    same_function(c, "margin", got, want, 1e-15L * v, str(f));
    // only the named signal matters
    stl::signal::Trace other;
    other[g.names[w]] = trace[g.names[w]];
    if (r.chance(.7)) {
      for (size_t i = 0; i < g.names.size(); i++)
        if (i != w) {
          auto s = std::make_shared<Signal>();
          int n = r.range(0, 4); // may even be empty
          for (int k = 0; k < n; k++) s->push_back(r.range(-5, 5) + 20. * k, r.range(-3, 3));
          other[g.names[i]] = s;
        }
    }
    auto sig2 = stl::semantics::compute_robustness(e, other);
    if (points_of(*sig2) != points_of(*sig)) c.fail("other-signals", "the value of an atom depends on other signals of the trace");
  }
  // constants
  for (bool b : {true, false}) {
    auto s = stl::semantics::compute_robustness(stl::Const(b), trace);
    Pwl got = pwl(c, *s, "the robustness of a constant"), want = eval_ref(mk_const(b), g);
    same_function(c, "constant", got, want, 0, b ? "true" : "false");
  }
  // a constant inside anything
  fg.o.depth = 2;
  if (huge) c.count("huge_traces");
  for (int i = 0; i < 3 && !huge; i++) {
    FP x = fg.make(r.range(0, 2)), k = mk_const(r.chance(.5));
    FP f;
    switch (r.below(7)) {
      case 0: f = mk(AND, {k, x}); break;
      case 1: f = mk(OR, {x, k, x}); break;
      case 2: f = mk(UNTIL, {k, x}); break;
      case 3: f = mk(UNTIL, {x, k}); break;
      case 4: f = mk(IFF, {x, k}); break;
      case 5: f = mk(XOR, {k, x}); break;
      default: { auto t = std::make_shared<F>(); t->k = r.chance(.5) ? ALW : EV; t->args = {mk(r.chance(.5) ? AND : OR, {x, k})}; gen_interval(r, g, *t); f = t; }
    }
    double b, e;
    if (!domain(f, g, b, e)) continue;
    c.desc("formula: " + str(f));
    try {
      Pwl got = eval_lib(c, to_expr(f), trace);
      Pwl want = eval_ref(f, g);
      Tol tol;
      for (auto& s : g.sig) tol.add(pwl(s));
      tol.add(want);
      tol.v = std::max(tol.v, (R)std::fabs(bound));
      same_function(c, "with-constant", got, want, tol.get((R)(16 * f->size())), "formula with a constant");
      c.count("formulas_with_constants");
    } catch (const ref::TooBig&) {}
  }
  c.nontrivial = g.sig[w].size() >= 2;
  c.hash = hash_bytes(&bound, sizeof bound, g.hash());
}
} // namespace vh
