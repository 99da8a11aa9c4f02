#include "world.hpp"
// C20: what the constructors and operators build, and what they leave alone.
namespace vh {
const char* RULE =
    "a pool of formulas grown by 4 to 14 random constructor, operator and copy calls (constants on either side, nested conjunctions, the same formula on both sides, lvalues and temporaries), each result compared with "
    "a model by structure (up to flattening, double negation and simplification of constants) and by robustness over a random trace; every formula of the pool compared with its snapshot after every call; non-trivial: at least one combination of two formulas that are not predicates";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace world;
namespace A = stl::ast;

// ---- normal form: operands in order, nested and/or flattened, double negation and constants simplified

struct N { char k; std::string atom; std::vector<N> a; };
static std::string text(const N& n) {
  std::string o(1, n.k);
  o += n.atom;
  if (!n.a.empty()) { o += "("; for (auto& x : n.a) o += text(x) + " "; o += ")"; }
  return o;
}
static N cnst(bool b) { return N{'C', b ? "1" : "0", {}}; }
static bool is(const N& n, bool b) { return n.k == 'C' && (n.atom == "1") == b; }
static N nary(char k, std::vector<N> in) {
  const bool unit = k == '&'; // true is neutral for and
  N o{k, "", {}};
  for (auto& x : in) {
    if (is(x, !unit)) return cnst(!unit);
    if (is(x, unit)) continue;
    if (x.k == k) o.a.insert(o.a.end(), x.a.begin(), x.a.end());
    else o.a.push_back(x);
  }
  if (o.a.empty()) return cnst(unit);
  if (o.a.size() == 1) return o.a[0];
  return o;
}
static N negate(N x) {
  if (x.k == 'C') return cnst(x.atom != "1");
  if (x.k == '~') return x.a[0];
  return N{'~', "", {x}};
}
static N unary(char k, std::string iv, N x) {
  if (x.k == 'C') return x;
  return N{k, iv, {x}};
}
static std::string ivtext(const A::Interval& i) { auto [a, b] = i.as_double(); return "[" + num(a) + "," + num(b) + "]"; }
static std::string ptext(const std::string& n, A::ComparisonOp op, double v) { return n + op_str(op) + num(v); }

static N norm(const A::Expr& e) {
  if (auto c = std::get_if<A::Const>(&e)) return cnst(c->value);
  if (auto p = std::get_if<A::Predicate>(&e)) return N{'p', ptext(p->name, p->op, p->rhs), {}};
  auto all = [](const std::vector<A::Expr>& v) { std::vector<N> o; for (auto& x : v) o.push_back(norm(x)); return o; };
  if (auto n = std::get_if<A::NotPtr>(&e)) return negate(norm((*n)->arg));
  if (auto n = std::get_if<A::AndPtr>(&e)) return nary('&', all((*n)->args));
  if (auto n = std::get_if<A::OrPtr>(&e)) return nary('|', all((*n)->args));
  if (auto n = std::get_if<A::AlwaysPtr>(&e)) return unary('G', ivtext((*n)->interval), norm((*n)->arg));
  if (auto n = std::get_if<A::EventuallyPtr>(&e)) return unary('F', ivtext((*n)->interval), norm((*n)->arg));
  auto n = std::get<A::UntilPtr>(e);
  return N{'U', ivtext(n->interval), {norm(n->args.first), norm(n->args.second)}};
}
static N norm(const FP& f) {
  switch (f->k) {
    case CONST: return cnst(f->b);
    case PRED: return N{'p', ptext(f->name, f->op, f->c), {}};
    default: break;
  }
  std::vector<N> a;
  for (auto& x : f->args) a.push_back(norm(x));
  switch (f->k) {
    case NOT: return negate(a[0]);
    case AND: return nary('&', a);
    case OR: return nary('|', a);
    case ALW: return unary('G', ivtext(interval_of(*f)), a[0]);
    case EV: return unary('F', ivtext(interval_of(*f)), a[0]);
    default: return N{'U', ivtext(interval_of(*f)), a};
  }
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  ref::size_limit() = 300;
  TraceOpts to;
  to.many = true;
  to.max_samples = 6;
  to.ranges = r.chance(.3);
  TraceG g = gen_trace(r, to);
  // Simplifying a constant may widen the time range, and temporal operators would see it: constants only where
  // all signals have the same range, so that everything is exact.
  bool consts = true;
  for (auto& s : g.sig) consts = consts && s.front().first == g.begin() && s.back().first == g.end();
  auto trace = g.build();
  c.desc(g.str());

  struct Ent { A::Expr e; FP f; std::string shot, deep; size_t size; };
  std::vector<Ent> pool;
  uint64_t h = g.hash();
  int combined = 0;

  auto unchanged = [&](const std::string& what) {
    for (size_t i = 0; i < pool.size(); i++) {
      if (snap(pool[i].e, true) != pool[i].shot) c.fail("changed", what + " changed the existing formula " + std::to_string(i));
    }
    c.count("snapshots_compared", pool.size());
  };
  auto add = [&](const std::string& what, const A::Expr& e, const FP& f) {
    unchanged(what);
    h = hash_str(what, h);
    N got = norm(e), want = norm(f);
    if (text(got) != text(want)) c.fail("structure", what + " built " + text(got) + " instead of " + text(want));
    c.count("formulas_compared");
    double b, t;
    if (domain(f, g, b, t) && f->size() < 60) {
      try {
        Pwl w = eval_ref(f, g);
        Pwl l = eval_lib(c, e, trace, "the robustness of the formula built");
        Tol tol;
        for (auto& s : g.sig) tol.add(pwl(s));
        tol.add(w);
        tol.v += 6;
        if (f->has_const()) c.count("formulas_with_constants_evaluated");
        same_function(c, "meaning", l, w, tol.get((R)(4 * f->size())), what);
        c.count("formulas_evaluated");
      } catch (const ref::TooBig&) {}
    }
    unchanged("evaluating " + what);
    if (pool.size() < 24 && f->size() < 80) pool.push_back({e, f, snap(e, true), {}, f->size()});
  };
  auto interval = [&](F& f) { gen_interval(r, g, f); };

  // a few to begin with
  {
    FormulaGen fg{r, g, {}};
    fg.o.consts = consts;
    for (int i = 0, n = r.range(2, 4); i < n; i++) {
      FP f = fg.make(r.range(0, 2));
      auto e = to_expr(f, &r);
      // implies, iff and xor are written out by the model
      std::function<FP(const FP&)> plain = [&](const FP& x) -> FP {
        std::vector<FP> a;
        for (auto& y : x->args) a.push_back(plain(y));
        switch (x->k) {
          case IMPLIES: return mk(OR, {mk(NOT, {a[0]}), a[1]});
          case IFF: return mk(OR, {mk(AND, {a[0], a[1]}), mk(AND, {mk(NOT, {a[0]}), mk(NOT, {a[1]})})});
          case XOR: return mk(AND, {mk(OR, {a[0], a[1]}), mk(OR, {mk(NOT, {a[0]}), mk(NOT, {a[1]})})});
          default: return with_args(x, a);
        }
      };
      f = plain(f);
      pool.push_back({e, f, snap(e, true), {}, f->size()});
      c.desc("formula " + std::to_string(i) + ": " + str(f));
    }
    for (bool b : {true, false})
      if (consts && r.chance(.6)) { A::Expr e = stl::Const(b); pool.push_back({e, mk_const(b), snap(e, true), {}, 1}); }
  }
  auto pick = [&]() -> size_t { return r.below(pool.size()); };
  auto refused = [&](const char* what, auto&& fn) {
    try { fn(); } catch (const std::exception&) { c.count("refusals"); unchanged(what); return; }
    c.fail("not-refused", std::string(what) + " was not refused");
  };

  for (int s = 0, n = r.range(4, 14); s < n; s++) {
    const size_t i = pick(), j = r.chance(.1) ? i : pick(), k = pick();
    const FP fi = pool[i].f, fj = pool[j].f, fk = pool[k].f;
    // an operand is an existing object, or a copy of it
    // (without the copies nobody but the pool holds it)
    const bool cp = r.chance(.4);
    A::Expr ci = cp ? pool[i].e : A::Expr{}, cj = cp ? pool[j].e : A::Expr{};
    const A::Expr &a = cp ? ci : pool[i].e, &b = cp ? cj : pool[j].e;
    auto note = [&](const std::string& w) { auto t = w + " of " + std::to_string(i) + ", " + std::to_string(j); c.desc(t); return t; };
    auto after = [&] { if (cp && (snap(ci, true) != pool[i].shot || snap(cj, true) != pool[j].shot)) c.fail("changed", "a copy of an operand was changed"); };
    if (fi->k > PRED && fj->k > PRED) combined++;
    switch (r.below(20)) {
      case 0: case 1: case 2: { auto w = note("&"); auto e = a & b; after(); add(w, e, mk(AND, {fi, fj})); break; }
      case 3: case 4: case 5: { auto w = note("|"); auto e = a | b; after(); add(w, e, mk(OR, {fi, fj})); break; }
      case 6: { auto w = note("~"); auto e = ~a; after(); add(w, e, mk(NOT, {fi})); break; }
      case 7: { auto w = note("Not"); auto e = stl::Not(a); after(); add(w, e, mk(NOT, {fi})); break; }
      case 8: { auto w = note("Implies"); auto e = stl::Implies(a, b); after(); add(w, e, mk(OR, {mk(NOT, {fi}), fj})); break; }
      case 9: { auto w = note("Iff"); auto e = stl::Iff(a, b); after(); add(w, e, mk(OR, {mk(AND, {fi, fj}), mk(AND, {mk(NOT, {fi}), mk(NOT, {fj})})})); break; }
      case 10: { auto w = note("Xor"); auto e = stl::Xor(a, b); after(); add(w, e, mk(AND, {mk(OR, {fi, fj}), mk(OR, {mk(NOT, {fi}), mk(NOT, {fj})})})); break; }
      case 11: { // n-ary, from a vector that is kept
        std::vector<A::Expr> v{pool[i].e, pool[j].e};
        std::vector<FP> fv{fi, fj};
        for (int m = r.range(0, 3); m > 0; m--) { size_t q = pick(); v.push_back(pool[q].e); fv.push_back(pool[q].f); }
        std::vector<std::string> shots;
        for (auto& x : v) shots.push_back(snap(x, true));
        bool conj = r.chance(.5);
        auto w = note(conj ? "And" : "Or");
        auto e = conj ? stl::And(v) : stl::Or(v);
        for (size_t q = 0; q < v.size(); q++) if (snap(v[q], true) != shots[q]) c.fail("changed", w + " changed the vector of operands");
        // as nodes say: nothing is dropped
        const auto& args = conj ? std::get<A::AndPtr>(e)->args : std::get<A::OrPtr>(e)->args;
        if (args.size() < 2) c.fail("structure", w + " has fewer than two operands");
        add(w, e, mk(conj ? AND : OR, fv));
        break;
      }
      case 12: { // temporal, unbounded
        bool g1 = r.chance(.5);
        auto w = note(g1 ? "Always" : "Eventually");
        auto e = g1 ? stl::Always(a) : stl::Eventually(a);
        after();
        add(w, e, mk(g1 ? ALW : EV, {fi}));
        break;
      }
      case 13: case 14: { // temporal, bounded
        auto f = std::make_shared<F>();
        f->k = r.chance(.5) ? ALW : EV;
        f->args = {fi};
        interval(*f);
        auto w = note(std::string(f->k == ALW ? "Always" : "Eventually") + ivtext(interval_of(*f)));
        auto e = f->k == ALW ? stl::Always(a, interval_of(*f)) : stl::Eventually(a, interval_of(*f));
        after();
        add(w, e, f);
        break;
      }
      case 15: { auto w = note("Until"); auto e = r.chance(.7) ? stl::Until(a, b) : stl::Until(a, b, A::Interval{0., std::numeric_limits<double>::infinity()}); after(); add(w, e, mk(UNTIL, {fi, fj})); break; }
      case 16: { // comparisons
        auto nm = g.names[r.below(g.names.size())];
        auto op = (A::ComparisonOp)r.below(4);
        double v = r.chance(.5) ? r.range(-4, 4) : r.real(-1e3, 1e3);
        A::Predicate base = r.chance(.5) ? stl::Predicate(nm) : A::Predicate{nm, (A::ComparisonOp)r.below(4), r.real(-9, 9)};
        A::Predicate was = base;
        auto cmp = [&]() -> A::Predicate {
          switch (op) { case A::ComparisonOp::GT: return base > v; case A::ComparisonOp::GE: return base >= v; case A::ComparisonOp::LT: return base < v; default: return base <= v; }
        };
        A::Predicate p = cmp();
        c.desc("comparison");
        if (base != was || base.name != was.name || base.op != was.op || base.rhs != was.rhs) c.fail("changed", "comparing changed the predicate compared");
        if (p.name != nm || p.op != op || p.rhs != v) c.fail("comparison", "comparing " + nm + " built " + ptext(p.name, p.op, p.rhs) + " instead of " + ptext(nm, op, v));
        if (!(p == A::Predicate{nm, op, v}) || p != A::Predicate{nm, op, v}) c.fail("equality", "equal predicates are reported different");
        if (p == A::Predicate{nm, op, v + 1 + std::fabs(v)} || p == A::Predicate{nm + "_", op, v} || p == A::Predicate{nm, (A::ComparisonOp)(((int)op + 1) % 4), v} || !(p != A::Predicate{nm + "_", op, v}))
          c.fail("equality", "different predicates are reported equal");
        if (!(stl::Const(true) == A::Const{true}) || stl::Const(true) == A::Const{false} || !(stl::Const(true) != stl::Const(false))) c.fail("equality", "constants compare wrongly");
        add("comparison", p, mk_pred(nm, op, v));
        break;
      }
      case 17: { // temporaries and assignment
        A::Expr x = a;
        auto w = note("& on a temporary, assigned");
        if (r.chance(.5)) { x = x & b; after(); add(w, x, mk(AND, {fi, fj})); }
        else { A::Expr y = b; x = std::move(x) | std::move(y); after(); add(w, x, mk(OR, {fi, fj})); }
        break;
      }
      case 18: { // growing one formula in a loop
        A::Expr x = a;
        std::vector<FP> fv{fi};
        bool conj = r.chance(.5);
        auto w = note(conj ? "repeated &" : "repeated |");
        for (int m = r.range(2, 6); m > 0; m--) {
          size_t q = pick();
          A::Expr was = x;
          auto shot = snap(was, true);
          x = conj ? x & pool[q].e : x | pool[q].e;
          if (snap(was, true) != shot) c.fail("changed", w + " changed what had been built before");
          fv.push_back(pool[q].f);
        }
        add(w, x, mk(conj ? AND : OR, fv));
        break;
      }
      default: {
        c.desc("refusals");
        refused("And of nothing", [&] { (void)stl::And({}); });
        refused("Or of nothing", [&] { (void)stl::Or({}); });
        refused("And of one", [&] { (void)stl::And({pool[i].e}); });
        refused("Or of one", [&] { (void)stl::Or({pool[i].e}); });
        refused("And of one", [&] { A::And x({pool[k].e}); });
        refused("Or of one", [&] { A::Or x({pool[k].e}); });
        refused("And of none", [&] { (void)std::make_shared<A::And>(std::vector<A::Expr>{}); });
      }
    }
  }
  // copies made at any time still say what they said
  c.nontrivial = combined > 0;
  c.hash = h;
}
} // namespace vh
