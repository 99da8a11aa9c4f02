#include "gen.hpp"
// C02: unbounded always/eventually against brute force over the operand's own robustness signal.
namespace vh {
const char* RULE =
    "random trace and operand formula; F and G (in every spelling: no interval, [0,inf)) compared at every breakpoint with the future sup/inf, by brute force, "
    "of the library's robustness of the operand; non-trivial: the operand has at least 3 samples and is not monotone";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(.002)) {
    TraceG g = gen_huge(r);
    FormulaGen fg{r, g, {}};
    fg.o.consts = false;
    bool max = r.chance(.5);
    FP op = fg.atom();
    if (r.chance(.3)) op = mk(r.chance(.5) ? AND : OR, {op, fg.atom()});
    FP f = mk(max ? EV : ALW, {op});
    c.desc(g.str());
    c.desc("formula: " + str(f));
    auto trace = g.build();
    Pwl x = eval_lib(c, to_expr(op), trace, "the operand");
    Tol tol;
    tol.add(x);
    auto got = eval_lib(c, to_expr(f, &r), trace);
    same_at_instants(c, "unbounded", got, x.begin(), x.end(), [&](R t) { return ref::opt_over(x, t, x.end(), max); }, tol.get(4), max ? "eventually" : "always");
    c.count("huge_cases");
    c.nontrivial = true;
    c.hash = hash_str(str(f), g.hash());
    return;
  }
  TraceOpts to;
  to.vast = true;
  to.many = true;
  to.large = true;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  FP op = fg.make(g.samples() > 100 ? r.range(0, 1) : r.chance(.6) ? 0 : r.range(1, 3));
  bool max = r.chance(.5);
  FP f = mk(max ? EV : ALW, {op});
  if (r.chance(.25)) f = mk_i(f->k, f->args, 2, 0, 0, 0.0, std::numeric_limits<double>::infinity());
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto trace = g.build();
  Pwl x = eval_lib(c, to_expr(op), trace, "the operand"), want;
  try { want = ref::window(x, 0, ref::INF, max); } catch (const ref::TooBig&) { throw Skip{}; }
  Tol tol;
  tol.add(x);
  auto got = eval_lib(c, to_expr(f, &r), trace);
  same_function(c, "unbounded", got, want, tol.get(4), max ? "eventually" : "always");
  // independent of the breakpoints of `want`: brute force at random instants
  for (int i = 0; i < 8; i++) {
    R t = x.begin() + (x.end() - x.begin()) * (R)r.unit();
    R w = ref::opt_over(x, t, x.end(), max), a = got.at(t);
    c.count("instants_compared");
    if (!(a == w || std::fabs(a - w) <= tol.get(4)))
      c.fail("unbounded", "at t=" + num((double)t) + ": " + num((double)a) + " instead of " + num((double)w) + show(got));
  }
  bool up = false, down = false;
  for (size_t i = 0; i + 1 < x.size(); i++) { up |= x.v[i + 1] > x.v[i]; down |= x.v[i + 1] < x.v[i]; }
  if (want.size() != x.size()) c.count("cases_where_the_optimum_changes_between_samples");
  if (!tol.tight(4)) c.count("cases_with_loose_tolerance");
  c.nontrivial = x.size() >= 3 && up && down;
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
