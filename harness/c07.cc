#include "gen.hpp"
// C07: Lipschitz bound and monotonicity, between two executions.
namespace vh {
const char* RULE =
    "random trace and formula evaluated twice: with every signal moved by at most d at every instant (by resampled perturbations), and with the signals of pure polarity raised; "
    "compared at every breakpoint of both; non-trivial: the perturbation changed the robustness";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

// +1 positive, -1 negative, 2 both, 0 none
static int polarity(const FP& f, const std::string& n) {
  using O = stl::ast::ComparisonOp;
  auto neg = [](int p) { return p == 1 ? -1 : p == -1 ? 1 : p; };
  auto join = [](int a, int b) { return a == 0 ? b : b == 0 || a == b ? a : 2; };
  switch (f->k) {
    case CONST: return 0;
    case PRED: return f->name != n ? 0 : (f->op == O::GT || f->op == O::GE) ? 1 : -1;
    case NOT: return neg(polarity(f->args[0], n));
    case IMPLIES: return join(neg(polarity(f->args[0], n)), polarity(f->args[1], n));
    case IFF: case XOR: { int p = join(polarity(f->args[0], n), polarity(f->args[1], n)); return p ? 2 : 0; }
    default: { int p = 0; for (auto& a : f->args) p = join(p, polarity(a, n)); return p; }
  }
}

// s with delta added at its samples and at extra instants.
template <typename D>
static Points perturb(Rng& r, const Points& s, D delta) {
  Pwl p = pwl(s);
  std::vector<double> ts;
  for (auto& x : s) ts.push_back(x.first);
  for (size_t i = 0; i + 1 < s.size(); i++)
    if (r.chance(.4)) { double t = s[i].first + (s[i + 1].first - s[i].first) * r.real(.1, .9); if (t > s[i].first && t < s[i + 1].first) ts.push_back(t); }
  std::sort(ts.begin(), ts.end());
  ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
  Points o;
  for (double t : ts) o.push_back({t, (double)(p.at(t) + delta())});
  return o;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.many = true;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  if (r.chance(.5)) { fg.o.negation = false; fg.o.derived = false; }
  FP f = fg.make(r.range(1, 4));
  if (f->size() > 80) throw Skip{};
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto expr = to_expr(f, &r);
  Pwl base = eval_lib(c, expr, g.build());
  Tol tol;
  for (auto& s : g.sig) tol.add(pwl(s));
  tol.add(base);
  tol.v += 6;
  const double d = r.chance(.5) ? r.real(0, 1) : r.chance(.5) ? r.real(0, .01) : r.range(1, 5);
  bool changed = false;
  {
    TraceG h = g;
    const int mode = r.range(0, 3);
    const double shift = r.chance(.5) ? d : -d;
    for (auto& s : h.sig)
      s = perturb(r, s, [&]() -> double { return mode == 0 ? shift : mode == 1 ? (r.chance(.5) ? d : -d) : mode == 2 ? (r.chance(.2) ? r.real(-d, d) : 0) : r.real(-d, d); });
    Pwl q = eval_lib(c, expr, h.build(), "the robustness of the perturbed trace");
    Tol t2 = tol;
    for (auto& s : h.sig) t2.add(pwl(s));
    t2.add(q);
    const R eps = t2.get((R)(4 * f->size()));
    if (q.begin() != base.begin() || q.end() != base.end()) c.fail("range", "the time range depends on the values");
    auto check = [&](R t) {
      R x = base.at(t), y = q.at(t);
      c.count("instants_compared");
      if (x != y) changed = true;
      if (x != y && !(std::fabs(x - y) <= d + eps))
        c.fail("lipschitz", "perturbing every signal by at most " + num(d) + " moved the robustness from " + num((double)x) + " to " + num((double)y) + " at t=" + num((double)t) + "\nperturbed " + h.str());
    };
    for (R t : base.t) check(t);
    for (R t : q.t) check(t);
  }
  // raise what occurs only positively, lower what occurs only negatively
  {
    TraceG h = g;
    bool any = false;
    for (size_t i = 0; i < h.sig.size(); i++) {
      int p = polarity(f, h.names[i]);
      if (p == 1 || p == -1) {
        any = true;
        h.sig[i] = perturb(r, h.sig[i], [&]() -> double { return p * (r.chance(.5) ? 0. : r.real(0, 4)); });
      }
    }
    if (any) {
      c.count("cases_with_pure_polarity");
      Pwl q = eval_lib(c, expr, h.build(), "the robustness of the raised trace");
      Tol t2 = tol;
      for (auto& s : h.sig) t2.add(pwl(s));
      t2.add(q);
      const R eps = t2.get((R)(4 * f->size()));
      auto check = [&](R t) {
        R x = base.at(t), y = q.at(t);
        c.count("instants_compared");
        if (x != y) changed = true;
        if (y < x - eps)
          c.fail("monotone", "moving the signals in the formula's favour lowered the robustness from " + num((double)x) + " to " + num((double)y) + " at t=" + num((double)t) + "\nmoved " + h.str());
      };
      for (R t : base.t) check(t);
      for (R t : q.t) check(t);
    }
  }
  c.nontrivial = changed;
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
