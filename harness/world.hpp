// Random programs over the whole public API: a pool of signals, traces, formulas and results.
#pragma once
#include "gen.hpp"
#include "spec.hpp"
#include <fstream>
#include <unistd.h>
#include <signal_tl/fmt.hpp>
#include <signal_tl/parser.hpp>
#include <signal_tl/signal_tl.hpp>

namespace world {
using namespace gen;
namespace A = stl::ast;

// ---- snapshots: every bit of what an object says, and which nodes it is made of --------------

// A time clearly after `t`, whatever its magnitude.
inline double after(double t, double d) { return t + d * std::max(1., std::abs(t) * 1e-12); }
inline void bits(std::string& o, double d) { o.append((const char*)&d, sizeof d); }

inline std::string snap(const Signal& s) {
  std::string o = "S";
  for (auto& x : s) { bits(o, x.time); bits(o, x.value); bits(o, x.derivative); }
  return o;
}

inline void snap(std::string& o, const A::Expr& e, bool addr, int depth = 0);
inline void snap(std::string& o, const A::Interval& i) {
  auto one = [&](const A::Interval::Num& n) {
    if (auto u = std::get_if<unsigned long long>(&n)) o += "u" + std::to_string(*u);
    else { o += "d"; bits(o, std::get<double>(n)); }
  };
  o += "[";
  one(i.low);
  o += ",";
  one(i.high);
  o += "]";
}
inline void snap(std::string& o, const A::Expr& e, bool addr, int) {
  o += (char)('0' + e.index());
  if (auto c = std::get_if<A::Const>(&e)) { o += c->value ? "t" : "f"; return; }
  if (auto p = std::get_if<A::Predicate>(&e)) {
    o += std::to_string(p->name.size()) + ":" + p->name + (char)('0' + (int)p->op);
    bits(o, p->rhs);
    return;
  }
  auto ad = [&](const void* p) { if (addr) { o.append((const char*)&p, sizeof p); } };
  o += "(";
  if (auto n = std::get_if<A::NotPtr>(&e)) { ad(n->get()); snap(o, (*n)->arg, addr); }
  else if (auto n = std::get_if<A::AndPtr>(&e)) { ad(n->get()); for (auto& a : (*n)->args) snap(o, a, addr); }
  else if (auto n = std::get_if<A::OrPtr>(&e)) { ad(n->get()); for (auto& a : (*n)->args) snap(o, a, addr); }
  else if (auto n = std::get_if<A::AlwaysPtr>(&e)) { ad(n->get()); snap(o, (*n)->interval); snap(o, (*n)->arg, addr); }
  else if (auto n = std::get_if<A::EventuallyPtr>(&e)) { ad(n->get()); snap(o, (*n)->interval); snap(o, (*n)->arg, addr); }
  else if (auto n = std::get_if<A::UntilPtr>(&e)) { ad(n->get()); snap(o, (*n)->interval); snap(o, (*n)->args.first, addr); snap(o, (*n)->args.second, addr); }
  o += ")";
}
inline std::string snap(const A::Expr& e, bool addr) { std::string o; snap(o, e, addr); return o; }

// The same formula made of new nodes.
inline A::Expr clone(const A::Expr& e) {
  if (std::get_if<A::Const>(&e) || std::get_if<A::Predicate>(&e)) return e;
  if (auto n = std::get_if<A::NotPtr>(&e)) return std::make_shared<A::Not>(clone((*n)->arg));
  if (auto n = std::get_if<A::AndPtr>(&e)) { std::vector<A::Expr> v; for (auto& a : (*n)->args) v.push_back(clone(a)); return std::make_shared<A::And>(v); }
  if (auto n = std::get_if<A::OrPtr>(&e)) { std::vector<A::Expr> v; for (auto& a : (*n)->args) v.push_back(clone(a)); return std::make_shared<A::Or>(v); }
  if (auto n = std::get_if<A::AlwaysPtr>(&e)) return std::make_shared<A::Always>(clone((*n)->arg), (*n)->interval);
  if (auto n = std::get_if<A::EventuallyPtr>(&e)) return std::make_shared<A::Eventually>(clone((*n)->arg), (*n)->interval);
  auto n = std::get<A::UntilPtr>(e);
  return std::make_shared<A::Until>(clone(n->args.first), clone(n->args.second), n->interval);
}
inline stl::signal::Trace clone(const stl::signal::Trace& t) {
  stl::signal::Trace o;
  for (auto& [n, s] : t) o[n] = std::make_shared<Signal>(*s);
  return o;
}

struct World {
  Ctx& c;
  Rng& r;
  bool watch;    // check every snapshot after every step
  bool invalid;  // also calls that must be refused

  struct Sig { SignalPtr p; std::string shot; const char* from; };
  struct Ex { A::Expr e; std::string shot; size_t size; };
  std::vector<Sig> sigs;
  std::vector<Ex> exprs;
  std::vector<stl::signal::Trace> traces;
  std::vector<std::string> trace_shots;
  std::map<std::string, std::string> memo; // evaluation -> result
  std::vector<std::pair<std::string, std::string>> texts; // spec text and its meaning
  std::map<std::string, std::string> printed;

  World(Ctx& c, bool watch, bool invalid) : c(c), r(c.rng), watch(watch), invalid(invalid) {}

  static std::string trace_shot(const stl::signal::Trace& t) {
    std::string o;
    for (auto& [n, s] : t) { o += n; auto p = s.get(); o.append((const char*)&p, sizeof p); }
    return o;
  }
  int sink = -1; // where to write every bit of every new object, for memcheck to see
  void add(SignalPtr p, const char* from) {
    if (!p) c.fail("null", std::string(from) + " returned a null pointer");
    use(snap(*p));
    if (sigs.size() > 14) { // forget some, but keep those of traces alive through the traces
      sigs.erase(sigs.begin() + (long)r.below(sigs.size()));
    }
    sigs.push_back({p, snap(*p), from});
  }
  void use(const std::string& b) {
    if (sink >= 0 && ::write(sink, b.data(), b.size()) < 0) throw std::runtime_error("harness: sink");
  }
  // A value to go with those of s: nothing is said about signals that are infinite only in part.
  static double like(const Signal& s, double v) {
    for (auto& x : s) if (!std::isfinite(x.value)) return x.value;
    return v;
  }
  void add(A::Expr e) {
    auto s = snap(e, true);
    use(s);
    if (s.size() > 4000) return;
    if (exprs.size() > 24) exprs.erase(exprs.begin() + (long)r.below(exprs.size()));
    exprs.push_back({e, s, s.size()});
  }
  void check_all(const char* what) {
    if (!watch) return;
    for (auto& s : sigs)
      if (snap(*s.p) != s.shot) c.fail("signal-changed", std::string(what) + " changed a signal it should not (one that came from " + s.from + ")");
    for (auto& e : exprs)
      if (snap(e.e, true) != e.shot) c.fail("formula-changed", std::string(what) + " changed a formula");
    for (size_t i = 0; i < traces.size(); i++)
      if (trace_shot(traces[i]) != trace_shots[i]) c.fail("trace-changed", std::string(what) + " changed a trace");
    c.count("snapshots_compared", sigs.size() + exprs.size() + traces.size());
  }
  Sig& sig() { return sigs[r.below(sigs.size())]; }
  A::Expr& ex() { return exprs[r.below(exprs.size())].e; }

  void new_trace() {
    TraceOpts to;
    to.max_samples = 8;
    TraceG g = gen_trace(r, to);
    c.desc("trace: " + g.str());
    stl::signal::Trace t;
    size_t at = 0;
    static const char* nm[] = {"x", "y", "z"};
    for (auto& s : g.sig) {
      auto p = std::make_shared<Signal>();
      for (auto [a, b] : s) p->push_back(a, b);
      add(p, "construction");
      t[nm[at++]] = p;
    }
    if (traces.size() > 3) { size_t k = r.below(traces.size()); traces.erase(traces.begin() + (long)k); trace_shots.erase(trace_shots.begin() + (long)k); }
    traces.push_back(t);
    trace_shots.push_back(trace_shot(t));
    g.names.assign(nm, nm + g.sig.size());
    FormulaGen fg{r, g, {}};
    for (int i = 0; i < 3; i++) add(to_expr(fg.make(r.range(0, 3)), &r));
  }

  template <typename Fn>
  bool refused(Fn&& fn) {
    try {
      fn();
    } catch (const std::exception& e) {
      if (!e.what()) c.fail("what", "an exception without a message");
      c.count("refusals");
      return true;
    }
    return false;
  }

  // A query at t on s, compared with the signal itself where that is cheap.
  void query(const Signal& s) {
    if (s.empty()) return;
    double b = s.begin_time(), e = s.end_time();
    double t = r.chance(.5) ? s.at_idx(r.below(s.size())).time : b + (e - b) * r.unit();
    volatile double sink = s.at(t).value;
    sink = s.front().value + s.back().value;
    for (auto i = s.begin_at(t); i != s.end(); ++i) sink = sink + i->value;
    for (auto i = s.begin(); i != s.end_at(t); ++i) sink = sink + i->value;
    for (auto i = s.rbegin(); i != s.rend(); ++i) sink = sink + i->derivative;
    size_t k = r.below(s.size());
    sink = s.interpolate(t, k) + s.area(t, k);
    sink = s.time_intersect(s.back(), k);
    double far[] = {b - 1, e + 1, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity()};
    double q = far[r.below(4)];
    for (auto i = s.begin_at(q); i != s.end(); ++i) sink = sink + i->value;
    for (auto i = s.begin(); i != s.end_at(q); ++i) sink = sink + i->value;
    if (invalid) {
      refused([&] { (void)s.at(q); });
      refused([&] { (void)s.at(std::nan("")); });
      size_t over = r.chance(.2) ? (size_t)-1 - r.below(3) : r.chance(.2) ? s.size() + r.below(100000) : s.size() + r.below(3);
      refused([&] { (void)s.at_idx(over); });
      refused([&] { (void)s.interpolate(0, over); });
      refused([&] { (void)s.area(q, over); });
      refused([&] { (void)s.time_intersect(s.back(), over); });
    }
    (void)sink;
  }

  // Whether the sample times stay apart when rounded after a shift.
  static bool can_shift(const Signal& s, double dt) {
    const double* last = nullptr;
    double prev = 0;
    for (auto& x : s) {
      double t = x.time + dt;
      if (last && !(t > prev)) return false;
      prev = t;
      last = &prev;
    }
    return true;
  }

  void transform(const Sig& s) {
    double b = s.p->begin_time(), e = s.p->end_time();
    switch (r.below(6)) {
      case 0: c.desc("simplify"); add(s.p->simplify(), "simplify"); break;
      case 1: { double dt = r.range(-5, 5); if (!can_shift(*s.p, dt)) break; c.desc("shift " + num(dt)); add(s.p->shift(dt), "shift"); break; }
      case 2: case 3: {
        double lo = b + r.range(-3, 3) * .5, hi = lo + (r.chance(.2) ? 0 : r.real(0, 2 * (e - b) + 1));
        if (!(hi >= lo)) hi = lo;
        c.desc("resize " + num(lo) + " " + num(hi));
        if (r.chance(.5)) add(s.p->resize(lo, hi, like(*s.p, r.range(-2, 2))), "resize");
        else {
          double fill = like(*s.p, r.range(-2, 2)), dt = r.range(-3, 3);
          if (can_shift(*s.p->resize(lo, hi, fill), dt)) add(s.p->resize_shift(lo, hi, fill, dt), "resize_shift");
        }
        break;
      }
      case 4: c.desc("copy"); add(std::make_shared<Signal>(*s.p), "copy"); break;
      default: {
        std::vector<Sample> v(s.p->begin(), s.p->end());
        add(std::make_shared<Signal>(v), "construction from samples");
      }
    }
  }

  void step() {
    const int op = (int)r.below(invalid ? 17 : 15);
    switch (op) {
      case 0: new_trace(); check_all("building a trace"); break;
      case 1: case 2: case 3: { // evaluate
        auto& t = traces[r.below(traces.size())];
        auto e = ex();
        c.desc("evaluate " + [&] { std::ostringstream o; o << e; return o.str(); }().substr(0, 300));
        std::string key = snap(e, false) + "|";
        for (auto& [n, s] : t) key += n + "=" + snap(*s);
        std::string res;
        SignalPtr out;
        try {
          out = stl::semantics::compute_robustness(e, t, r.chance(.2));
          res = snap(*out);
          c.count("evaluations_done");
        } catch (const std::exception& x) {
          res = std::string("threw ") + x.what();
          c.count("evaluations_refused");
        }
        if (watch) {
          auto [it, fresh] = memo.insert({key, res});
          if (!fresh) {
            c.count("evaluations_repeated");
            if (it->second != res) c.fail("not-repeatable", "evaluating the same formula over the same trace again gave a different result");
          }
          // new objects saying the same
          if (r.chance(.5)) {
            std::string res2;
            try { res2 = snap(*stl::semantics::compute_robustness(clone(e), clone(t))); } catch (const std::exception& x) { res2 = std::string("threw ") + x.what(); }
            c.count("evaluations_of_copies");
            if (res2 != res) c.fail("depends-on-identity", "evaluating copies of the formula and of the trace gave a different result");
          }
          // at once, once more
          if (out && r.chance(.5)) {
            auto again = stl::semantics::compute_robustness(e, t);
            c.count("evaluations_repeated");
            if (snap(*again) != res) c.fail("not-repeatable", "evaluating twice in a row gave different results");
            if (again == out) c.fail("aliased", "two evaluations returned the same object");
          }
          if (out) for (auto& [n, s] : t) if (s == out) c.fail("aliased", "the result is the trace's own signal");
        }
        if (out) add(out, "an evaluation");
        check_all("evaluating");
        break;
      }
      case 4: { // append to a signal: only that one changes
        auto& s = sig();
        double t = s.p->empty() ? r.range(-5, 5) : after(s.p->end_time(), r.real(.01, 2));
        double v = like(*s.p, r.range(-5, 5));
        c.desc("append to a signal from " + std::string(s.from));
        auto before = points_of(*s.p);
        if (r.chance(.5)) s.p->push_back(t, v); else s.p->push_back(Sample{t, v, r.real(-5, 5)});
        before.push_back({t, v});
        auto after = points_of(*s.p); // bit for bit: infinite values appended to may have become NaN in between
        if (after.size() != before.size() || memcmp(after.data(), before.data(), after.size() * sizeof after[0])) c.fail("append", "appending stored something else");
        for (auto& o : sigs) if (o.p == s.p) o.shot = snap(*o.p);
        check_all("appending to another signal");
        break;
      }
      case 5: { c.desc("query"); query(*sig().p); check_all("querying"); break; }
      case 6: { Sig s = sig(); transform(s); check_all("transforming"); break; }
      case 7: { // synchronize
        auto x = sig().p, y = sig().p;
        c.desc("synchronize");
        try {
          auto [u, v] = stl::signal::synchronize(x, y);
          if (watch && (u == v || u == x || u == y || v == x || v == y)) c.fail("aliased", "synchronize returned one of its operands, or one object twice");
          add(u, "synchronize");
          add(v, "synchronize");
        } catch (const std::invalid_argument&) { c.count("refusals"); }
        check_all("synchronizing");
        break;
      }
      case 8: case 9: { // combine formulas
        auto a = ex(), b = ex();
        c.desc("combine");
        try {
          switch (r.below(14)) {
            case 0: add(a & b); break;
            case 1: add(a | b); break;
            case 2: add(~a); break;
            case 3: add(stl::Not(a)); break;
            case 4: add(stl::And({a, b, ex()})); break;
            case 5: add(stl::Or({a, b})); break;
            case 6: add(stl::Implies(a, b)); break;
            case 7: add(stl::Iff(a, b)); break;
            case 8: add(stl::Xor(a, b)); break;
            case 9: add(stl::Always(a)); break;
            case 10: add(stl::Eventually(a, A::Interval{(unsigned long long)r.below(3), 3ull + r.below(4)})); break;
            case 11: add(stl::Always(a, A::Interval{.5, 1.5 + r.unit()})); break;
            case 12: add(stl::Until(a, b)); break;
            default: add(stl::Predicate(r.chance(.5) ? "x" : "y") > r.range(-2, 2)); break;
          }
        } catch (const std::invalid_argument&) { c.fail("combine-threw", "combining two formulas threw"); }
        check_all("combining formulas");
        break;
      }
      case 10: { // copy and drop
        if (r.chance(.5)) add(ex());
        else if (exprs.size() > 4) exprs.erase(exprs.begin() + (long)r.below(exprs.size()));
        check_all("destroying a formula");
        break;
      }
      case 11: case 12: { // print
        auto e = ex();
        std::ostringstream o;
        o << e;
        std::string t = o.str() + "|" + fmt::to_string(e);
        auto s = sig().p;
        std::string st = fmt::to_string(*s);
        if (watch) {
          auto [it, fresh] = printed.insert({snap(e, false), t});
          if (!fresh && it->second != t) c.fail("print-not-repeatable", "printing the same formula again gave a different text");
          auto [it2, fresh2] = printed.insert({snap(*s), st});
          if (!fresh2 && it2->second != st) c.fail("print-not-repeatable", "printing the same signal again gave a different text");
        }
        c.count("printed");
        check_all("printing");
        break;
      }
      case 13: case 14: parse_something(); check_all("parsing"); break;
      default: bad_call(); check_all("a refused call");
    }
    c.count("steps");
  }

  void parse_something() {
    static const char* T[] = {
        "(define-formula a (and (> x 1) (not (< y 2.5)))) (assert b (always a))",
        "(define-formula p (eventually (<= 3 x)))\n(define-formula q (until p (or p (>= y 0))))\n(assert r (xor p q))",
        "; nothing\n",
        "(assert t (iff true (implies false (> x 1e3))))",
        "(define-formula a (> x 1)) (define-formula a (> x 2))",
        "(assert a b)",
        "(assert a (and (> x 1)))",
        "(assert a (> x",
        "(((",
        "(define-formula a (> x 99999999999999999999999))",
        "(define-formula a (> x 1e999))",
        "(define-formula a (not (not (not (not (not true))))))",
        "(define-formula a (and true (> x 1) (or (> y 2) (> z 3) (> x 1e-3)) (xor true false)))",
    };
    std::string t = T[r.below(sizeof T / sizeof *T)];
    c.desc("parse " + t);
    std::string res;
    try {
      auto s = stl::parser::from_string(t);
      for (auto& [n, e] : s->formulas) { res += n + "=" + snap(e, false); add(e); }
      for (auto& [n, e] : s->assertions) { res += "!" + n + "=" + snap(e, false); add(e); }
      c.count("parsed");
    } catch (const std::exception& x) {
      res = std::string("threw ") + x.what();
      c.count("refusals");
    }
    if (watch) {
      auto [it, fresh] = memo.insert({"parse " + t, res});
      if (!fresh && it->second != res) c.fail("parse-not-repeatable", "parsing the same text again gave a different result");
    }
  }

  // Calls that must be answered by an exception.
  void bad_call() {
    const double nan = std::nan("");
    auto must = [&](const char* what, auto&& fn) {
      c.desc(std::string("refused call: ") + what);
      if (!refused(fn)) c.fail("not-refused", std::string(what) + " was not refused");
    };
    auto& s = sig();
    switch (r.below(13)) {
      case 0: if (!s.p->empty()) must("append before the end", [&] { s.p->push_back(s.p->end_time() - r.range(0, 3), 1); }); break;
      case 1: if (!s.p->empty()) must("append at NaN", [&] { s.p->push_back(nan, 1); }); break;
      case 2: {
        std::vector<double> v, t;
        for (int i = 0, n = r.range(0, 9); i < n; i++) { v.push_back(i); t.push_back(i); }
        auto& shorter = r.chance(.5) ? v : t;
        auto& longer = &shorter == &v ? t : v;
        for (int i = 0, n = r.range(1, r.chance(.1) ? 3000 : 3); i < n; i++) longer.push_back((double)longer.size());
        if (r.chance(.3)) shorter.clear();
        shorter.shrink_to_fit();
        must("points and times of different length", [&] { Signal x(v, t); });
        break;
      }
      case 3: must("interval with b < a", [&] { A::Interval i(2., 1.); }); break;
      case 4: must("negative interval", [&] { A::Interval i(-1., 1.); }); break;
      case 5: must("conjunction of one", [&] { (void)stl::And({ex()}); }); break;
      case 6: must("disjunction of none", [&] { (void)stl::Or({}); }); break;
      case 7: must("unknown signal", [&] { (void)stl::semantics::compute_robustness(stl::And({stl::Predicate("unknown") > 0, ex()}), traces[r.below(traces.size())]); }); break;
      case 8: must("bounded until", [&] { (void)stl::semantics::compute_robustness(stl::Until(stl::Const(true), stl::Const(true), A::Interval{0.5, 2.0}), traces[0]); }); break;
      case 9: must("inverted integer interval", [&] { (void)stl::semantics::compute_robustness(stl::Always(stl::Const(true), A::Interval{5ull, 2ull}), traces[0]); }); break;
      case 11: {
        std::vector<Sample> v;
        int n = r.range(2, 12), at = r.range(1, n - 1);
        for (int i = 0; i < n; i++) v.push_back({(double)i, (double)r.range(-3, 3), 0});
        v[(size_t)at].time = r.chance(.3) ? nan : v[(size_t)at - 1].time - (r.chance(.5) ? 0 : r.range(0, 3));
        must("a sample list that is not increasing", [&] { Signal x(v); });
        break;
      }
      case 10: { auto far = s.p; if (!s.p->empty()) { far = std::make_shared<Signal>(); far->push_back(after(s.p->end_time(), 10), 1); } must("synchronizing disjoint signals", [&] { (void)stl::signal::synchronize(s.p, far); }); break; }
      default: must("malformed text", [&] { static const char* T[] = {"(assert", "(assert x)", "(x)", ")", "(define-formula a (and true))", "(assert a b)", "(define-formula a (> x 1e400))", "\xff\xfe", "(assert a (> x 1)) junk"};
                                            (void)stl::parser::from_string(T[r.below(9)]); }); break;
    }
  }
};

} // namespace world
