#include "gen.hpp"
// C08: laws of STL, between two executions.
namespace vh {
const char* RULE =
    "random trace and operand formulas p, q, s substituted into both sides of each of the listed laws; the two robustness signals are compared at every breakpoint of both; "
    "non-trivial: the common robustness is not constant";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

static FP Not_(FP a) { return mk(NOT, {a}); }
static FP And_(FP a, FP b) { return mk(AND, {a, b}); }
static FP Or_(FP a, FP b) { return mk(OR, {a, b}); }
static FP U_(FP a, FP b) { return mk(UNTIL, {a, b}); }

static bool has_temporal(const FP& f) {
  if (f->k == ALW || f->k == EV || f->k == UNTIL) return true;
  for (auto& a : f->args) if (has_temporal(a)) return true;
  return false;
}
static bool mentions(const FP& f, const FP& g) {
  if (f == g) return true;
  for (auto& a : f->args) if (mentions(a, g)) return true;
  return false;
}

struct Law { const char* name; FP l, r; bool same_range; };

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.many = true;
  to.ranges = r.chance(.25);
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  fg.o.depth = 2;
  auto operand = [&] { return r.chance(.6) ? fg.make(0) : fg.make(r.range(1, 2)); };
  FP p = operand(), q = operand(), s = operand();
  F iv;
  gen_interval(r, g, iv);
  auto T = [&](Kind k, FP a) { return mk_i(k, {a}, iv.ik, iv.ia, iv.ib, iv.da, iv.db); };
  auto B = [&](Kind k, FP a, double lo, double hi) { return mk_i(k, {a}, 2, 0, 0, lo, hi); };
  auto I = [&](Kind k, FP a, unsigned long long lo, unsigned long long hi) { return mk_i(k, {a}, 1, lo, hi, 0, 0); };
  const Kind k = r.chance(.5) ? ALW : EV, dual = k == ALW ? EV : ALW, nary = k == ALW ? AND : OR;
  const double a = .25 * r.range(0, 8), b = a + .25 * r.range(1, 12), a2 = .25 * r.range(0, 8), b2 = a2 + .25 * r.range(1, 12);
  const unsigned long long i = r.below(4), j = i + r.below(5), i2 = r.below(4), j2 = i2 + r.below(5);
  auto un = [&](Kind kk, FP x) { return mk(kk, {x}); };
  FP tr = mk_const(true), fa = mk_const(false);
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<Law> laws{
      {"de morgan and", Not_(And_(p, q)), Or_(Not_(p), Not_(q)), true},
      {"de morgan or", Not_(mk(OR, {p, q, s})), mk(AND, {Not_(p), Not_(q), Not_(s)}), true},
      {"double negation", Not_(Not_(p)), p, true},
      {"commutativity and", And_(p, q), And_(q, p), true},
      {"commutativity or", Or_(p, q), Or_(q, p), true},
      {"associativity and", And_(And_(p, q), s), And_(p, And_(q, s)), true},
      {"associativity or", Or_(Or_(p, q), s), mk(OR, {p, q, s}), true},
      {"idempotence and", And_(p, p), p, true},
      {"idempotence or", mk(OR, {p, p, p}), p, true},
      {"absorption and", And_(p, Or_(p, q)), p, false},
      {"absorption or", Or_(p, And_(p, q)), p, false},
      {"distributivity and", And_(p, Or_(q, s)), Or_(And_(p, q), And_(p, s)), true},
      {"distributivity or", Or_(p, And_(q, s)), And_(Or_(p, q), Or_(p, s)), true},
      {"duality", Not_(un(k, p)), un(dual, Not_(p)), true},
      {"bounded duality", Not_(T(k, p)), T(dual, Not_(p)), true},
      {"eventually is until", un(EV, p), U_(tr, p), true},
      {"always is not until", un(ALW, p), Not_(U_(tr, Not_(p))), true},
      {"unbounded idempotence", un(k, un(k, p)), un(k, p), true},
      {"alternation", un(k, un(dual, un(k, p))), un(dual, un(k, p)), true},
      {"interval addition", B(k, B(k, p, a2, b2), a, b), B(k, p, a + a2, b + b2), true},
      {"integer interval addition", I(k, I(k, p, i2, j2), i, j), I(k, p, i + i2, j + j2), true},
      {"bounded then unbounded", B(k, un(k, p), a, b), B(k, p, a, inf), true},
      {"unbounded then bounded", un(k, B(k, p, a, b)), B(k, p, a, inf), true},
      {"[0,inf)", B(k, p, 0, inf), un(k, p), true},
      {"integer and real interval", I(k, p, i, j + 1), B(k, p, (double)i, (double)(j + 1)), true},
      {"adjacent windows", mk(nary, {B(k, p, a, b), B(k, p, b, b + .75)}), B(k, p, a, b + .75), true},
      {"window split at infinity", mk(nary, {B(k, p, a, b), B(k, p, b, inf)}), B(k, p, a, inf), true},
      {"fixed point", un(k, p), mk(nary, {p, un(k, p)}), true},
      {"distribution over its connective", T(k, mk(nary, {p, q})), mk(nary, {T(k, p), T(k, q)}), false},
      {"until fixed point", U_(p, q), Or_(q, And_(p, U_(p, q))), true},
      {"until idempotence", U_(p, U_(p, q)), U_(p, q), true},
      {"until below eventually", And_(U_(p, q), un(EV, q)), U_(p, q), true},
      {"until left distribution", U_(And_(p, q), s), And_(U_(p, s), U_(q, s)), true},
      {"until right distribution", U_(p, Or_(q, s)), Or_(U_(p, q), U_(p, s)), true},
      {"until itself", U_(p, p), p, true},
      {"until [0,inf)", mk_i(UNTIL, {p, q}, 2, 0, 0, 0., inf), U_(p, q), true},
      {"false until", U_(fa, p), p, true},
      {"implies", mk(IMPLIES, {p, q}), Or_(Not_(p), q), true},
      {"contraposition", mk(IMPLIES, {p, q}), mk(IMPLIES, {Not_(q), Not_(p)}), true},
      {"iff", mk(IFF, {p, q}), And_(mk(IMPLIES, {p, q}), mk(IMPLIES, {q, p})), true},
      {"iff symmetric", mk(IFF, {p, q}), mk(IFF, {q, p}), true},
      {"xor", mk(XOR, {p, q}), Not_(mk(IFF, {p, q})), true},
      {"xor definition", mk(XOR, {p, q}), Or_(And_(p, Not_(q)), And_(Not_(p), q)), true},
      {"constant and", And_(tr, p), p, true},
      {"constant or", mk(OR, {p, fa}), p, true},
  };
  c.desc(g.str());
  auto trace = g.build();
  for (int n = 0; n < 6; n++) {
    const Law& l = laws[r.below(laws.size())];
    double b0, e0, b1, e1;
    c.desc(std::string("law '") + l.name + "': " + str(l.l) + "  =  " + str(l.r));
    if (!domain(l.l, g, b0, e0) || !domain(l.r, g, b1, e1)) { c.count("operands_without_common_instant"); continue; }
    Pwl x = eval_lib(c, to_expr(l.l, &r), trace), y = eval_lib(c, to_expr(l.r, &r), trace);
    Tol tol;
    for (auto& sg : g.sig) tol.add(pwl(sg));
    tol.add(x);
    tol.add(y);
    tol.v += 6;
    tol.extra_t = 10;
    // Where operands end at different times, each side may see a different part of the future.
    if (has_temporal(l.l) || has_temporal(l.r)) {
      double b2, e2;
      bool equal = true;
      for (auto& o : {p, q, s}) equal &= !(mentions(l.l, o) || mentions(l.r, o)) || (domain(o, g, b2, e2) && e2 == e0 && e2 == e1);
      if (!equal) { c.count("operands_with_different_ends"); continue; }
    }
    // Operands may have different time ranges: f op g is defined where both are.
    R lo = std::max(x.begin(), y.begin()), hi = std::min(x.end(), y.end());
    bool same = x.begin() == y.begin() && x.end() == y.end();
    if (lo > hi) { c.count("operands_without_common_instant"); continue; }
    if (l.same_range && !same && b0 == b1 && e0 == e1)
      c.fail("range", std::string("law '") + l.name + "': the two sides cover different time ranges");
    if (!same && (l.l->k == EV || l.l->k == ALW)) continue; // the range of the operand matters for bounded windows at its end
    same_function(c, "law", restrict(x, lo, hi), restrict(y, lo, hi), tol.get((R)(4 * (l.l->size() + l.r->size()))), std::string("law '") + l.name + "'");
    c.count(std::string("law: ") + l.name);
    if (x.size() > 2) c.nontrivial = true;
  }
  c.hash = g.hash() ^ hash_str(str(p) + str(q) + str(s));
}
} // namespace vh
