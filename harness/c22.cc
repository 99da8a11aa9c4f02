#include "world.hpp"
// C22: what cannot be evaluated is refused, wherever it occurs.
namespace vh {
const char* RULE =
    "a random formula that can be evaluated over a random trace, evaluated; then one thing that cannot be evaluated put at a random place of it (a name the trace lacks, a bounded until, an inverted interval, operands without a common instant) and evaluated "
    "again: it must throw, change nothing, and leave the good formula's result as it was; intervals of every kind constructed and read back; non-trivial: the place is at depth 2 or more";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace world;
namespace A = stl::ast;
static const double INFTY = std::numeric_limits<double>::infinity();

static uint64_t ubits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

static double any_bound(Rng& r) {
  switch (r.below(8)) {
    case 0: return r.range(-3, 10);
    case 1: return r.real(-3, 10);
    case 2: { static const double v[] = {0., -0., 5e-324, -5e-324, 1e-300, 1e300, 1.7976931348623157e308, 9007199254740993., .1, -1e-9}; return v[r.below(10)]; }
    case 3: return r.chance(.7) ? INFTY : -INFTY;
    case 4: return r.chance(.3) ? std::nan("") : r.range(0, 3);
    case 5: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }
    default: return r.real(0, 100);
  }
}

static void intervals(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 6; k++) {
    double a = any_bound(r), b = r.chance(.15) ? a : r.chance(.15) ? std::nextafter(a, r.chance(.5) ? INFTY : -INFTY) : any_bound(r);
    const bool valid = a >= 0 && b > a;
    std::string t = "Interval(" + num(a) + ", " + num(b) + ")";
    try {
      A::Interval i{a, b};
      if (!valid) c.fail("interval-accepted", t + " was accepted");
      auto lo = std::get_if<double>(&i.low), hi = std::get_if<double>(&i.high);
      if (!lo || !hi || ubits(*lo) != ubits(a) || ubits(*hi) != ubits(b)) c.fail("interval-bounds", t + " does not keep its bounds");
      auto check = [&](const A::Interval& x, const char* where) {
        auto [p, q] = x.as_double();
        if (ubits(p) != ubits(a) || ubits(q) != ubits(b)) c.fail("interval-bounds", t + where + " reads as [" + num(p) + ", " + num(q) + "]");
        bool whole = a == 0 && b == INFTY;
        if (x.is_zero_to_inf() != whole || x.has_value() == whole) c.fail("interval-kind", t + where + (whole ? " is not taken for [0, inf)" : " is taken for [0, inf)"));
      };
      check(i, "");
      A::Expr e = stl::Predicate("x") > 0;
      check(std::get<A::AlwaysPtr>(stl::Always(e, i))->interval, " in always");
      check(std::get<A::EventuallyPtr>(stl::Eventually(e, i))->interval, " in eventually");
      check(std::get<A::UntilPtr>(stl::Until(e, e, i))->interval, " in until");
      check(A::Always(e, i).interval, " in an always node");
      check(A::Eventually(e, i).interval, " in an eventually node");
      check(A::Until(e, e, i).interval, " in an until node");
      c.count("intervals_accepted");
    } catch (const std::exception& x) {
      if (valid) c.fail("interval-refused", t + " was refused: " + x.what());
      c.count("intervals_refused");
    }
    // integers
    auto integer = [&]() -> unsigned long long {
      switch (r.below(4)) { case 0: return r.below(5); case 1: return r.next(); case 2: return r.chance(.5) ? std::numeric_limits<unsigned long long>::max() : (1ull << 53) + r.below(3); default: return r.below(1000); }
    };
    unsigned long long m = integer(), n = r.chance(.2) ? m : integer();
    std::string u = "Interval(" + std::to_string(m) + "u, " + std::to_string(n) + "u)";
    try {
      A::Interval i{m, n};
      auto lo = std::get_if<unsigned long long>(&i.low), hi = std::get_if<unsigned long long>(&i.high);
      if (!lo || !hi || *lo != m || *hi != n) c.fail("interval-bounds", u + " does not keep its bounds");
      auto [p, q] = i.as_double();
      if (p != (double)m || q != (double)n) c.fail("interval-bounds", u + " reads as [" + num(p) + ", " + num(q) + "]");
      if (i.is_zero_to_inf() || !i.has_value()) c.fail("interval-kind", u + " is taken for [0, inf)");
      c.count("intervals_accepted");
    } catch (const std::exception& x) {
      if (m <= n) c.fail("interval-refused", u + " was refused: " + x.what());
      c.count("intervals_refused");
    }
  }
  A::Interval d;
  auto [p, q] = d.as_double();
  if (p != 0 || q != INFTY || !d.is_zero_to_inf() || d.has_value()) c.fail("interval-kind", "the default interval is not [0, inf)");
  A::Expr e = stl::Predicate("x") > 0;
  if (std::get<A::AlwaysPtr>(stl::Always(e))->interval.has_value() || std::get<A::EventuallyPtr>(stl::Eventually(e))->interval.has_value() || std::get<A::UntilPtr>(stl::Until(e, e))->interval.has_value())
    c.fail("interval-kind", "an operator without an interval has one");
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  intervals(c);
  TraceOpts to;
  to.many = true;
  to.max_samples = 7;
  TraceG g = gen_trace(r, to);
  // a signal that has no instant in common with any other, and an empty one
  TraceG all = g;
  std::string away = "elsewhere", none = "nothing";
  {
    Points p;
    double w = std::max(1., g.max_time());
    double t = r.chance(.5) ? g.end() + w * r.real(.001, 1) : g.begin() - w * 3;
    for (int i = 0, n = r.range(1, 4); i < n; i++) p.push_back({t + w * .25 * i, (double)r.range(-3, 3)});
    if (r.chance(.3)) { // a rounding error away
      if (p.front().first > g.end()) p.front().first = std::nextafter(g.end(), INFTY);
      else p.back().first = std::nextafter(g.begin(), -INFTY);
    }
    all.names.push_back(away);
    all.sig.push_back(p);
    all.names.push_back(none);
    all.sig.push_back({});
  }
  auto trace = g.build();      // what formulas are about
  auto trace2 = trace;         // with those in addition; the same signals otherwise
  for (size_t i = g.names.size(); i < all.names.size(); i++) {
    auto s = std::make_shared<Signal>();
    for (auto [a, b] : all.sig[i]) s->push_back(a, b);
    trace2[all.names[i]] = s;
  }
  FormulaGen fg{r, g, {}};
  FP f = fg.make(r.range(0, r.chance(.2) ? 6 : 4));
  if (f->size() > 100) throw Skip{};
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  c.desc(g.str());
  c.desc("formula: " + str(f));
  auto good = to_expr(f, &r);
  std::string result = snap(*stl::semantics::compute_robustness(good, trace)); // must not throw
  const std::string good_shot = snap(good, true);

  size_t deepest = 0;
  for (int k = 0; k < 6; k++) {
    // the thing that cannot be evaluated, around or instead of a sub-formula x
    const int kind = (int)r.below(5);
    bool extra = false; // needs trace2
    std::string what;
    auto spoil = [&](const FP& x) -> FP {
      auto bin = [&](const FP& y) { Kind kk = r.chance(.4) ? UNTIL : r.chance(.5) ? AND : OR; return r.chance(.5) ? mk(kk, {x, y}) : mk(kk, {y, x}); };
      auto wrap = [&](FP y) { for (int m = r.range(0, 2); m > 0; m--) y = mk(r.chance(.4) ? NOT : r.chance(.5) ? ALW : EV, {y}); return y; };
      switch (kind) {
        case 0: { // unknown name
          std::string n = g.names[r.below(g.names.size())];
          static const char* tails[] = {"_", " ", "1", "\1"};
          switch (r.below(9)) {
            case 0: n += tails[r.below(4)]; break;
            case 1: n = n.substr(0, n.size() - 1); break;
            case 2: for (auto& ch : n) ch = (char)toupper(ch); break;
            case 3: n = ""; break;
            case 4: n += '\0'; break;
            case 5: n = "unknown"; break;
            default: n = kin(r, n);
          }
          while (trace2.count(n)) n += "_";
          what = "the unknown signal '" + n + "'";
          FP p = mk_pred(n, (stl::ast::ComparisonOp)r.below(4), r.range(-3, 3));
          return r.chance(.5) ? p : bin(wrap(p));
        }
        case 1: { // until with an interval
          auto u = std::make_shared<F>();
          u->k = UNTIL;
          FP y = fg.make(r.range(0, 2));
          double p, q;
          u->args = {x, domain(mk(AND, {x, y}), g, p, q) ? y : x};
          if (r.chance(.3)) std::swap(u->args[0], u->args[1]);
          do gen_interval(r, g, *u); while (!interval_of(*u).has_value());
          if (r.chance(.2)) { u->ik = 1; u->ia = 0; u->ib = r.chance(.5) ? std::numeric_limits<unsigned long long>::max() : r.below(3); }
          what = "an until with an interval";
          return u;
        }
        case 2: { // inverted interval
          auto u = std::make_shared<F>();
          u->k = r.chance(.4) ? ALW : r.chance(.7) ? EV : UNTIL;
          u->args = {x};
          if (u->k == UNTIL) u->args.push_back(x);
          u->ik = 1;
          u->ib = r.chance(.5) ? 0 : r.below(100);
          u->ia = u->ib + 1 + (r.chance(.5) ? 0 : r.below(1000));
          if (r.chance(.05)) u->ia = std::numeric_limits<unsigned long long>::max();
          if (r.chance(.3)) { // large, and reversed by little
            u->ib = (1ull << r.range(10, 50)) + r.below(1000);
            u->ia = u->ib + 1 + (r.chance(.7) ? 0 : r.below(10));
          }
          if (r.chance(.25)) { // bounds of different types
            if (u->ia == std::numeric_limits<unsigned long long>::max()) u->ia--, u->ib = std::min(u->ib, 1000ull);
            u->ik = r.chance(.5) ? 3 : 4;
            if (u->ik == 3) u->db = r.chance(.5) || u->ia > (1ull << 51) ? (double)u->ib : u->ia < 1000 ? std::nextafter((double)u->ia, 0.) : (double)u->ia - .5;
            else u->da = r.chance(.5) ? (double)u->ia : u->ib < 1000 ? std::nextafter((double)u->ib, 1e300) : (double)u->ib + .5;
          }
          what = "the interval [" + std::to_string(u->ia) + ", " + std::to_string(u->ib) + "]";
          return u;
        }
        case 3: extra = true; what = "operands without a common instant"; return bin(wrap(mk_pred(away, (stl::ast::ComparisonOp)r.below(4), r.range(-3, 3))));
        default: extra = true; what = "an operand without samples"; return bin(mk_pred(none, (stl::ast::ComparisonOp)r.below(4), r.range(-3, 3)));
      }
    };
    // the sub-formulas and where they are
    size_t at = r.below(f->size()), depth = 0;
    std::function<FP(const FP&, size_t&, size_t)> put = [&](const FP& x, size_t& n, size_t d) -> FP {
      if (n-- == 0) { depth = d; return spoil(x); }
      std::vector<FP> a;
      for (auto& y : x->args) {
        if (n < y->size()) { a.push_back(put(y, n, d + 1)); n = (size_t)-1; }
        else { if (n != (size_t)-1) n -= y->size(); a.push_back(y); }
      }
      return with_args(x, a);
    };
    size_t n = at;
    FP bad = put(f, n, 0);
    if (what.empty()) throw std::logic_error("harness: nothing was spoiled");
    // a constant's range spans the trace: with the extra signals it is wider, and may meet what is elsewhere
    if (extra && f->has_const()) continue;
    deepest = std::max(deepest, depth);
    c.desc("with " + what + ": " + str(bad));
    A::Expr be;
    try { be = to_expr(bad, &r); }
    catch (const std::invalid_argument&) { // an inverted interval may be refused when it is built
      if (kind == 2) { c.count("refused_on_construction"); continue; }
      throw;
    }
    const std::string shot = snap(be, true);
    const auto& t = extra ? trace2 : trace;
    std::string before;
    for (auto& [nm, s] : t) before += nm + snap(*s);
    bool threw = false;
    try {
      auto s = stl::semantics::compute_robustness(be, t, r.chance(.3));
      c.fail("answered", "a formula with " + what + " was evaluated to" + show(s ? pwl(points_of(*s)) : Pwl{}));
    } catch (const Violation&) {
      throw;
    } catch (const std::exception& x) {
      threw = true;
      if (!x.what() || !*x.what()) c.fail("message", "refused with an empty message");
    }
    c.count("refused_" + std::string(kind == 0 ? "unknown_signal" : kind == 1 ? "bounded_until" : kind == 2 ? "inverted_interval" : kind == 3 ? "no_common_instant" : "no_samples"), threw);
    std::string after;
    for (auto& [nm, s] : t) after += nm + snap(*s);
    if (after != before) c.fail("changed", "a refused evaluation changed the trace");
    if (snap(be, true) != shot || snap(good, true) != good_shot) c.fail("changed", "a refused evaluation changed a formula");
  }
  if (snap(*stl::semantics::compute_robustness(good, trace)) != result) c.fail("aftermath", "after refused evaluations, the good formula evaluates differently");
  c.nontrivial = deepest >= 2;
  c.hash = hash_str(c.describe);
}
} // namespace vh
