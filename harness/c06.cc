#include "gen.hpp"
// C06: whole nested formulas against the reference semantics and against the Boolean semantics.
namespace vh {
const char* RULE =
    "random trace and nested formula over all operators (depth up to 7); the robustness is compared at every breakpoint with a reference evaluation of the whole formula, and its sign at "
    "breakpoints and random instants with Boolean satisfaction computed on sets of intervals; non-trivial: depth at least 3 with a temporal operator";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

static ref::Sat sat(const FP& f, const TraceG& g) {
  using O = stl::ast::ComparisonOp;
  switch (f->k) {
    case CONST: {
      ref::Sat s{g.begin(), g.end(), {}};
      if (f->b) s.in.push_back({s.b, s.e});
      return s;
    }
    case PRED: {
      Pwl m = eval_ref(f, g);
      ref::Sat s{m.begin(), m.end(), {}};
      for (size_t i = 0; i < m.size(); i++) {
        if (m.v[i] >= 0) s.in.push_back({m.t[i], m.t[i]});
        if (i + 1 == m.size()) break;
        R a = m.v[i], b = m.v[i + 1], t = m.t[i], u = m.t[i + 1];
        if (a < 0 && b < 0) continue;
        R l = a >= 0 ? t : t + (u - t) * (a / (a - b)), h = b >= 0 ? u : t + (u - t) * (a / (a - b));
        if (l <= h) s.in.push_back({l, h});
      }
      s.norm();
      return s;
    }
    default: break;
  }
  std::vector<ref::Sat> a;
  for (auto& x : f->args) a.push_back(sat(x, g));
  switch (f->k) {
    case NOT: return ref::sat_not(a[0]);
    case AND: { auto s = a[0]; for (size_t i = 1; i < a.size(); i++) s = ref::sat_and(s, a[i]); return s; }
    case OR: { auto s = a[0]; for (size_t i = 1; i < a.size(); i++) s = ref::sat_or(s, a[i]); return s; }
    case EV: return ref::sat_ev(a[0], f->lo(), f->hi());
    case ALW: return ref::sat_not(ref::sat_ev(ref::sat_not(a[0]), f->lo(), f->hi()));
    case UNTIL: return ref::sat_until(a[0], a[1]);
    case IMPLIES: return ref::sat_or(ref::sat_not(a[0]), a[1]);
    case IFF: return ref::sat_or(ref::sat_and(a[0], a[1]), ref::sat_and(ref::sat_not(a[0]), ref::sat_not(a[1])));
    default: return ref::sat_and(ref::sat_or(a[0], a[1]), ref::sat_or(ref::sat_not(a[0]), ref::sat_not(a[1])));
  }
}

static bool temporal(const FP& f) {
  if (f->k == ALW || f->k == EV || f->k == UNTIL) return true;
  for (auto& a : f->args) if (temporal(a)) return true;
  return false;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  ref::size_limit() = 400;
  TraceOpts to;
  to.vast = true;
  to.many = true;
  to.max_samples = 9;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  int depth = r.chance(.8) ? r.range(2, 5) : r.range(5, 7);
  FP f;
  const bool deep = r.chance(.008);
  if (!deep) f = fg.make(depth);
  else { // very deep, with little at each level
    to.max_samples = 4;
    g = gen_trace(r, to);
    f = fg.make(r.range(0, 1));
    static const int levels[] = {32, 64, 100, 128, 200, 256, 400, 512};
    const int n = r.chance(.5) ? levels[r.below(8)] + r.range(-2, 2) : r.range(8, 520);
    const double nots = r.unit(), unary = r.chance(.5) ? 1 : .95;
    for (int i = 0; i < n; i++) {
      if (r.chance(nots)) f = mk(NOT, {f});
      else if (r.chance(unary)) f = mk(r.chance(.5) ? ALW : EV, {f});
      else { FP a = fg.atom(); f = mk(r.chance(.5) ? AND : r.chance(.7) ? OR : UNTIL, {r.chance(.5) ? a : f, r.chance(.5) ? f : a}); if (f->args[0] == f->args[1]) f = mk(NOT, {f->args[0]}); }
    }
    c.count("very_deep_formulas");
  }
  c.desc(g.str());
  c.desc("formula: " + str(f));
  if (f->size() > 120 && !deep) throw Skip{};
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  Pwl want;
  try { want = eval_ref(f, g); } catch (const ref::TooBig&) { c.count("too_big_for_the_reference"); throw Skip{}; }
  auto trace = g.build();
  Pwl got = eval_lib(c, to_expr(f, &r), trace);
  Tol tol;
  for (auto& s : g.sig) tol.add(pwl(s));
  tol.add(want);
  tol.v += 6;
  const R eps = tol.get((R)(4 * f->size()));
  same_function(c, "semantics", got, want, eps, "nested formula");
  // Boolean meaning of the sign
  ref::Sat s = sat(f, g);
  std::vector<R> ts(got.t);
  for (int i = 0; i < 12; i++) ts.push_back(got.begin() + (got.end() - got.begin()) * (R)r.unit());
  for (R t : ts) {
    R v = got.at(t);
    if (v > eps && !s.has(t)) c.fail("sign", "robustness " + num((double)v) + " > 0 at t=" + num((double)t) + " but the formula is violated there");
    if (v < -eps && s.has(t)) c.fail("sign", "robustness " + num((double)v) + " < 0 at t=" + num((double)t) + " but the formula is satisfied there");
    c.count(v > eps ? "instants_satisfied" : v < -eps ? "instants_violated" : "instants_near_zero");
  }
  c.count("depth_" + (f->depth() > 10 ? "over_10" : std::to_string(f->depth())));
  if (eps > 1e-4L * tol.v) c.count("cases_with_loose_tolerance");
  c.nontrivial = f->depth() >= 3 && temporal(f);
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
