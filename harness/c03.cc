#include "gen.hpp"
// C03: bounded always/eventually against brute force over the window.
namespace vh {
const char* RULE =
    "random trace, operand and interval (integers, reals, sample distances, points, [a,inf), longer than the trace, 2^64-1); compared at every breakpoint and at "
    "random instants with brute force over [t+a,t+b]; non-trivial: the operand has at least 3 samples and the result differs from the operand and from the unbounded result";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(.002)) {
    TraceG g = gen_huge(r);
    FormulaGen fg{r, g, {}};
    fg.o.consts = false;
    bool max = r.chance(.5);
    FP op = fg.atom();
    if (r.chance(.3)) op = mk(r.chance(.5) ? AND : OR, {op, fg.atom()});
    auto fn = std::make_shared<F>();
    fn->k = max ? EV : ALW;
    fn->args = {op};
    if (r.chance(.5)) gen_interval(r, g, *fn);
    else { fn->ik = 1; fn->ia = r.below(600); fn->ib = fn->ia + r.below(r.chance(.5) ? 40 : 3000); }
    FP f = fn;
    c.desc(g.str());
    c.desc("formula: " + str(f));
    auto trace = g.build();
    Pwl x = eval_lib(c, to_expr(op), trace, "the operand");
    Tol tol;
    tol.add(x);
    const R lo = f->lo(), hi = f->hi();
    tol.extra_t = std::min(lo, x.end() - x.begin()) + (std::isfinite((double)hi) ? std::min(hi, x.end() - x.begin()) : 0);
    auto got = eval_lib(c, to_expr(f, &r), trace);
    same_at_instants(c, "bounded", got, x.begin(), x.end(), [&](R t) { return ref::opt_over(x, t + lo, t + hi, max); }, tol.get(4), max ? "eventually" : "always");
    c.count("huge_cases");
    c.nontrivial = true;
    c.hash = hash_str(str(f), g.hash());
    return;
  }
  TraceOpts to;
  to.vast = true;
  to.many = true;
  to.large = true;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  FP op = fg.make(g.samples() > 100 ? 0 : r.chance(.6) ? 0 : r.range(1, 2));
  bool max = r.chance(.5);
  auto fn = std::make_shared<F>();
  fn->k = max ? EV : ALW;
  fn->args = {op};
  gen_interval(r, g, *fn);
  FP f = fn;
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto trace = g.build();
  Pwl x = eval_lib(c, to_expr(op), trace, "the operand"), want;
  const R lo = f->lo(), hi = f->hi();
  try { want = ref::window(x, lo, hi, max); } catch (const ref::TooBig&) { throw Skip{}; }
  Tol tol;
  tol.add(x);
  tol.extra_t = std::min(lo, x.end() - x.begin()) + (std::isfinite((double)hi) ? std::min(hi, x.end() - x.begin()) : 0);
  auto got = eval_lib(c, to_expr(f, &r), trace);
  same_function(c, "bounded", got, want, tol.get(4), max ? "eventually" : "always");
  for (int i = 0; i < 8; i++) {
    R t = x.begin() + (x.end() - x.begin()) * (R)r.unit();
    R w = ref::opt_over(x, t + lo, t + hi, max), a = got.at(t);
    c.count("instants_compared");
    if (!(a == w || std::fabs(a - w) <= tol.get(4)))
      c.fail("bounded", "at t=" + num((double)t) + ": " + num((double)a) + " instead of " + num((double)w) + show(got));
  }
  c.count(f->ik > 2 ? "mixed_intervals" : f->ik == 1 ? (f->ia == f->ib ? "point_windows" : "integer_intervals") : std::isinf(f->db) ? "intervals_to_infinity" : "real_intervals");
  if (lo > 0) c.count("intervals_with_a>0");
  if (!tol.tight(4)) c.count("cases_with_loose_tolerance");
  Pwl unb = ref::window(x, 0, ref::INF, max);
  auto differ = [&](const Pwl& u, const Pwl& v) {
    for (R t : u.t) if (u.at(t) != v.at(t)) return true;
    for (R t : v.t) if (u.at(t) != v.at(t)) return true;
    return false;
  };
  c.nontrivial = x.size() >= 3 && differ(want, x) && differ(want, unb);
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
