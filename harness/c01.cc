#include "gen.hpp"
// C01: and/or/not (implies/iff/xor) against min/max/negation of the operands' own robustness signals.
namespace vh {
const char* RULE =
    "random trace (12 time profiles x 11 value profiles) and random operand formulas; the library's robustness of the compound is compared, at every "
    "breakpoint of both, with min/max/negation of the library's robustness of the operands; non-trivial: the operands cross or have different sample times";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(.003)) {
    TraceG g = gen_huge(r);
    FormulaGen fg{r, g, {}};
    fg.o.consts = false;
    bool max = r.chance(.5);
    std::vector<FP> ops;
    for (int i = 0, n = r.range(2, 4); i < n; i++) ops.push_back(fg.atom());
    if (r.chance(.3)) ops.back() = mk(r.chance(.5) ? EV : ALW, {ops.back()});
    FP f = mk(max ? OR : AND, ops);
    c.desc(g.str());
    c.desc("formula: " + str(f));
    auto trace = g.build();
    std::vector<Pwl> xs;
    Tol tol;
    R b = -ref::INF, e = ref::INF;
    for (auto& o : ops) { xs.push_back(eval_lib(c, to_expr(o), trace, "an operand")); tol.add(xs.back()); b = std::max(b, xs.back().begin()); e = std::min(e, xs.back().end()); }
    auto got = eval_lib(c, to_expr(f), trace);
    same_at_instants(c, "pointwise", got, b, e, [&](R t) { R m = xs[0].at(t); for (auto& x : xs) m = max ? std::max(m, x.at(t)) : std::min(m, x.at(t)); return m; }, tol.get(4), "and/or");
    c.count("huge_cases");
    c.nontrivial = true;
    c.hash = hash_str(str(f), g.hash());
    return;
  }
  TraceOpts to;
  to.vast = true;
  to.many = true;
  to.max_signals = 4;
  to.large = true;
  TraceG g = gen_trace(r, to);
  FormulaGen fg{r, g, {}};
  fg.o.depth = 2;
  Kind kinds[] = {AND, OR, AND, OR, AND, OR, NOT, IMPLIES, IFF, XOR};
  Kind k = kinds[r.below(10)];
  int n = k == NOT ? 1 : k == AND || k == OR ? (r.chance(.5) ? 2 : r.chance(.93) ? r.range(3, 6) : r.chance(.95) ? r.range(7, 40) : r.range(41, 300)) : 2;
  if (n > 2 && r.chance(.03)) { // around a power of two or a multiple of one
    static const int sizes[] = {16, 32, 48, 64, 96, 100, 128, 192, 256, 512, 1000, 1024};
    n = sizes[r.below(r.chance(.2) ? 12 : 9)] + r.range(-1, 2);
  }
  std::vector<FP> ops;
  for (int i = 0; i < n; i++) ops.push_back(n > 60 ? fg.atom() : fg.make(g.samples() > 100 || n > 6 ? r.range(0, 1) : r.chance(.5) ? 0 : r.range(1, 2)));
  if (n > 1 && r.chance(.1)) ops.back() = ops.front();
  if (n > 6 && r.chance(.7)) { // one that decides, often the last
    for (auto& o : ops)
      if (o->k == CONST) o = fg.atom();
    auto& o = r.chance(.5) ? ops.back() : r.chance(.3) ? ops.front() : ops[r.below(ops.size())];
    const std::string nm = g.names[r.below(g.names.size())];
    double m = 0;
    for (auto& s : g.sig) for (auto& p : s) m = std::max(m, std::fabs(p.second));
    // x > c is -m or less throughout, and x > -c is m or more
    o = mk_pred(nm, stl::ast::ComparisonOp::GT, k == AND ? 3 * m + 50 : -3 * m - 50);
    if (r.chance(.3)) o = mk(NOT, {mk_pred(nm, stl::ast::ComparisonOp::GT, k == AND ? -3 * m - 50 : 3 * m + 50)});
    c.count("one_operand_decides");
  }
  FP f = mk(k, ops);
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto trace = g.build();
  std::vector<Pwl> xs;
  Tol tol;
  bool inf = false;
  for (auto& o : ops) {
    xs.push_back(eval_lib(c, to_expr(o), trace, "an operand"));
    tol.add(xs.back());
    inf |= !xs.back().finite();
  }
  Pwl want;
  try {
    switch (k) {
      case NOT: want = ref::negate(xs[0]); break;
      case AND: want = ref::combine(xs, false); break;
      case OR: want = ref::combine(xs, true); break;
      case IMPLIES: want = ref::combine({ref::negate(xs[0]), xs[1]}, true); break;
      case IFF: want = ref::combine({ref::combine(xs, false), ref::combine({ref::negate(xs[0]), ref::negate(xs[1])}, false)}, true); break;
      default: want = ref::combine({ref::combine(xs, true), ref::combine({ref::negate(xs[0]), ref::negate(xs[1])}, true)}, false);
    }
  } catch (const ref::TooBig&) { throw Skip{}; }
  auto got = eval_lib(c, to_expr(f), trace);
  same_function(c, "pointwise", got, want, tol.get(4), "and/or/not");
  if (k == IMPLIES || k == IFF || k == XOR) {
    // The library's functions. They simplify constants, which may widen the time range.
    auto p = to_expr(ops[0], &r), q = to_expr(ops[1], &r);
    auto got2 = eval_lib(c, k == IMPLIES ? stl::Implies(p, q) : k == IFF ? stl::Iff(p, q) : stl::Xor(p, q), trace);
    if (f->has_const()) {
      if (got2.begin() > want.begin() || got2.end() < want.end()) c.fail("range", "the robustness does not cover the common range");
      got2 = restrict(got2, want.begin(), want.end());
    }
    same_function(c, "derived", got2, want, tol.get(4), "implies/iff/xor");
  }
  if (k == AND || k == OR) { // order of the operands
    auto perm = ops;
    r.shuffle(perm);
    auto got2 = eval_lib(c, to_expr(mk(k, perm)), trace);
    same_function(c, "order", got2, want, tol.get(4), "permuted operands");
    auto got3 = eval_lib(c, k == AND ? stl::And([&] { std::vector<stl::Expr> v; for (auto& o : ops) v.push_back(to_expr(o)); return v; }())
                                     : stl::Or([&] { std::vector<stl::Expr> v; for (auto& o : ops) v.push_back(to_expr(o)); return v; }()), trace);
    same_function(c, "function", got3, want, tol.get(4), "And()/Or()");
  }
  size_t most = 0;
  for (auto& x : xs) most = std::max(most, x.size());
  if (inf) c.count("cases_with_infinite_operand");
  if (!tol.tight(4)) c.count("cases_with_loose_tolerance");
  c.count(std::string("operands_") + std::to_string(n));
  if (want.size() > most) c.count("cases_with_crossings_or_different_times");
  c.nontrivial = k == NOT ? xs[0].size() > 1 : want.size() > most || want.size() > 3;
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
