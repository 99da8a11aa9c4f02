#include "gen.hpp"
// C04: until against brute force over the operands' own robustness signals.
namespace vh {
const char* RULE =
    "random trace and two operand formulas; the library's until (no interval, or [0,inf)) compared at every breakpoint and at random instants with brute force; "
    "non-trivial: the result differs from the right operand and from the left one";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(.0015)) {
    TraceG g = gen_huge(r);
    FormulaGen fg{r, g, {}};
    fg.o.consts = false;
    FP l = fg.atom(), q = fg.atom(), f = mk(UNTIL, {l, q});
    c.desc(g.str());
    c.desc("formula: " + str(f));
    auto trace = g.build();
    Pwl x = eval_lib(c, to_expr(l), trace, "the left operand"), y = eval_lib(c, to_expr(q), trace, "the right operand");
    Tol tol;
    tol.add(x);
    tol.add(y);
    auto got = eval_lib(c, to_expr(f, &r), trace);
    same_at_instants(c, "until", got, std::max(x.begin(), y.begin()), std::min(x.end(), y.end()), [&](R t) { return ref::until_at(x, y, t); }, tol.get(4), "until", 30);
    c.count("huge_cases");
    c.nontrivial = true;
    c.hash = hash_str(str(f), g.hash());
    return;
  }
  ref::size_limit() = 1500;
  TraceOpts to;
  to.vast = true;
  to.max_signals = 2;
  if (r.chance(.03)) to.large = true;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  auto operand = [&](int i) -> FP {
    if (r.chance(.6)) { auto f = mk_pred(g.names[(size_t)i % g.names.size()], (stl::ast::ComparisonOp)r.below(4), fg.bound()); return f; }
    return fg.make(r.range(0, 2));
  };
  FP l = operand(0), q = operand(1);
  FP f = mk(UNTIL, {l, q});
  if (r.chance(.2)) f = mk_i(UNTIL, {l, q}, 2, 0, 0, 0.0, std::numeric_limits<double>::infinity());
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto trace = g.build();
  Pwl x = eval_lib(c, to_expr(l), trace, "the left operand"), y = eval_lib(c, to_expr(q), trace, "the right operand"), want;
  if (x.size() + y.size() > 300) throw Skip{};
  try { want = ref::until(x, y); } catch (const ref::TooBig&) { throw Skip{}; }
  Tol tol;
  tol.add(x);
  tol.add(y);
  auto got = eval_lib(c, to_expr(f, &r), trace);
  same_function(c, "until", got, want, tol.get(4), "until");
  R ymax = -ref::INF;
  for (int i = 0; i < 8; i++) {
    R t = want.begin() + (want.end() - want.begin()) * (R)r.unit();
    R w = ref::until_at(x, y, t), a = got.at(t);
    c.count("instants_compared");
    if (!(a == w || std::fabs(a - w) <= tol.get(4)))
      c.fail("until", "at t=" + num((double)t) + ": " + num((double)a) + " instead of " + num((double)w) + show(got));
  }
  for (R t : want.t) ymax = std::max(ymax, y.at(t));
  for (size_t i = 0; i < y.size(); i++) if (y.t[i] >= want.begin() && y.t[i] <= want.end()) ymax = std::max(ymax, y.v[i]);
  for (R v : got.v)
    if (v > ymax + tol.get(4)) c.fail("until-above-right", "until is above every value of its right operand: " + num((double)v) + " > " + num((double)ymax));
  auto differ = [&](const Pwl& u) {
    for (R t : want.t) if (u.at(t) != want.at(t)) return true;
    return false;
  };
  if (!tol.tight(4)) c.count("cases_with_loose_tolerance");
  if (ymax <= 0) c.count("cases_where_the_right_operand_never_holds");
  c.nontrivial = want.size() >= 3 && differ(x) && differ(y);
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
