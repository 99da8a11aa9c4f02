#include "gen.hpp"
#include <new>
#include <signal_tl/fmt.hpp>
#include <signal_tl/parser.hpp>
#include <signal_tl/signal_tl.hpp>
// C23: cost at n against cost at 16 n, in basic blocks executed, bytes moved and memory taken.

extern uint64_t vh_steps;
static uint64_t moved = 0, allocated = 0, allocations = 0;
#define NOCOV __attribute__((no_sanitize_coverage))

// Block copies and allocations are calls into the C library: counted here.
extern "C" NOCOV void* memcpy(void* d, const void* s, size_t n) {
  moved += n;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
extern "C" NOCOV void* memmove(void* d, const void* s, size_t n) {
  moved += n;
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else {
    auto dd = (char*)d + n - 1;
    auto ss = (const char*)s + n - 1;
    asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
extern "C" NOCOV void* memset(void* d, int c, size_t n) {
  moved += n;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
NOCOV void* operator new(size_t n) {
  allocated += n;
  allocations++;
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
NOCOV void operator delete(void* p) noexcept { free(p); }
NOCOV void operator delete(void* p, size_t) noexcept { free(p); }

namespace vh {
const char* RULE =
    "every operator, query, transformation, construction, parse and print on families of inputs of length m and 16 m (300 to 2500 samples and 16 times that): shapes from constant to noise, windows from a point to beyond the trace, shared and interleaved sampling; "
    "work = basic blocks executed in the library and its templates + bytes moved / 16 + allocations; at most 45 times the work for 16 times the input (n log n: 23, quadratic: 256), likewise the result's samples; non-trivial: always";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

struct Cost { uint64_t work = 0, out = 0; };

template <typename Fn>
static Cost measure(Fn&& fn) {
  uint64_t s = vh_steps, m = moved, a = allocated, k = allocations;
  Cost c;
  c.out = fn();
  c.work = (vh_steps - s) + (moved - m) / 16 + (allocated - a) / 64 + 4 * (allocations - k);
  return c;
}

// A signal of n samples; the shape scales with n.
struct Shape {
  int kind = 0, sampling = 0;
  uint64_t seed = 1;
  double period = 10; // samples
  double phase = 0;
  SignalPtr make(size_t n) const {
    Rng r(seed);
    auto s = std::make_shared<Signal>();
    const double len = (double)(n - 1);
    double walk = 0;
    for (size_t i = 0; i < n; i++) {
      double x = (double)i, t = x, v = 0;
      switch (sampling) {
        case 0: t = x; break;
        case 1: t = i == 0 || i + 1 == n ? x : x + .5 * phase; break; // between the samples of another
        case 2: t = x < len / 2 ? x / 16 : len / 32 + (x - len / 2) * 2; break; // dense, then sparse
        default: t = i == 0 || i + 1 == n ? x : x + r.real(-.4, .4);
      }
      switch (kind) {
        case 0: v = 1; break;
        case 1: v = x; break;
        case 2: v = -x; break;
        case 3: v = std::sin(x * 6.283 / period + phase); break;
        case 4: v = std::sin(x * 6.283 * 5 / len + phase); break;
        case 5: v = r.real(-1, 1); break;
        case 6: v = (walk += r.real(-1, 1)); break;
        case 7: v = i % 2 ? 1 : -1; break;
        case 8: v = (i % 2 ? 1 : -1) * (x + 1); break;          // widening zigzag
        case 9: v = (i % 2 ? 1 : -1) * (len + 1 - x); break;    // narrowing
        case 10: v = std::floor(x / period); break;
        case 11: v = std::fmod(x, period); break;
        case 12: v = -std::fmod(x, period); break;
        case 13: v = i % 37 == 5 ? 100 : 0; break;
        case 14: v = -std::fabs(x - len / 2); break;
        case 15: v = (x - len / 2) * (x - len / 2) / len; break;
        case 16: v = std::fmod(x, len / 3); break;
        default: v = (double)((i * 7919) % n);
      }
      s->push_back(t, v + phase * .01);
    }
    return s;
  }
  std::string str() const { return "shape " + std::to_string(kind) + " sampling " + std::to_string(sampling) + " period " + num(period); }
};
static Shape shape(Rng& r) {
  static const double periods[] = {3, 7, 10, 40, 100, 250};
  return {(int)r.below(18), r.chance(.5) ? 0 : (int)r.below(4), r.next() | 1, periods[r.below(6)], r.real(.1, .9)};
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  size_t m = (size_t)(r.chance(.15) ? r.chance(.1) ? r.range(4200, 5200) : r.range(1500, 2500) : r.range(300, 700));
  const size_t factor = 16;
  std::string what;
  std::function<Cost(size_t)> at;
  const char* family = "evaluation";

  auto pred = [&](const char* n) { return stl::ast::Predicate{n, (stl::ast::ComparisonOp)r.below(4), r.real(-.5, .5)}; };
  const int kind = (int)r.below(22);
  if (kind < 11) {
    Shape a = shape(r), b = shape(r), d = shape(r);
    if (r.chance(.3)) b.sampling = a.sampling, b.seed = a.seed;
    // windows: as a share of the trace or in samples
    int wk[3];
    double wf[3];
    for (int i = 0; i < 3; i++) { wk[i] = (int)r.below(9); wf[i] = r.unit(); }
    // formula shape, made again for each n, with windows for that n
    struct Node { int op; int x, y; int w; };
    std::vector<Node> nodes;
    int depth = r.chance(.6) ? 1 : r.range(2, 4);
    for (int i = 0; i < depth; i++) nodes.push_back({r.range(0, 11), 0, 0, (int)r.below(3)});
    std::vector<stl::ast::Expr> atoms{pred("x"), pred("y"), pred("z"), pred("x"), pred("y")};
    std::vector<int> ops;
    for (auto& nd : nodes) ops.push_back(nd.op);
    what = "evaluation of";
    static const char* on[] = {"not", "and", "or", "and of 4", "F", "G", "F window", "G window", "U", "U swapped", "iff", "constant and"};
    for (auto& nd : nodes) what += std::string(" ") + on[nd.op] + (nd.op == 6 || nd.op == 7 ? std::to_string(wk[nd.w]) : "");
    what += " on " + a.str() + "; " + b.str() + "; " + d.str();
    at = [=](size_t n) {
      stl::signal::Trace t;
      t["x"] = a.make(n);
      t["y"] = b.make(n);
      t["z"] = d.make(n);
      const double len = t["x"]->end_time();
      auto interval = [&](int i) {
        double lo = 0, hi = 1;
        switch (wk[i]) {
          case 0: return stl::ast::Interval{5ull, 5ull};
          case 1: lo = 0; hi = 3; break;
          case 2: lo = 0; hi = 5 + 45 * wf[i]; break;
          case 3: lo = 0; hi = len * (.05 + .9 * wf[i]); break;
          case 4: lo = len * .1; hi = lo + len * (.05 + .5 * wf[i]); break;
          case 5: lo = len * .4; hi = len * 3; break;
          case 6: lo = len * .1; hi = std::numeric_limits<double>::infinity(); break;
          case 7: lo = .25; hi = 1.75; break;
          default: return stl::ast::Interval{(unsigned long long)(len * wf[i]), (unsigned long long)(len * wf[i]) + 1};
        }
        return stl::ast::Interval{lo, hi};
      };
      stl::ast::Expr e = atoms[0];
      int q = 1;
      for (auto& nd : nodes) {
        const stl::ast::Expr& y = atoms[(size_t)(q++ % 5)];
        switch (nd.op) {
          case 0: e = stl::Not(e); break;
          case 1: e = stl::And({e, y}); break;
          case 2: e = stl::Or({y, e}); break;
          case 3: e = stl::And({e, atoms[1], atoms[2], y}); break;
          case 4: e = stl::Eventually(e); break;
          case 5: e = stl::Always(e); break;
          case 6: e = stl::Eventually(e, interval(nd.w)); break;
          case 7: e = stl::Always(e, interval(nd.w)); break;
          case 8: e = stl::Until(e, y); break;
          case 9: e = stl::Until(y, e); break;
          case 10: e = stl::Iff(e, y); break;
          default: e = std::make_shared<stl::ast::Or>(std::vector<stl::ast::Expr>{e, stl::Const(false), stl::ast::Expr{std::make_shared<stl::ast::And>(std::vector<stl::ast::Expr>{stl::Const(true), y})}});
        }
      }
      return measure([&] { return stl::semantics::compute_robustness(e, t)->size(); });
    };
  } else if (kind < 15) {
    family = "signals";
    Shape a = shape(r), b = shape(r);
    int op = r.range(0, 10);
    double u = r.unit();
    static const char* on[] = {"synchronize", "simplify", "resize inside", "resize around", "shift", "at", "begin_at and end_at", "construction from samples", "construction from points and times", "appending", "copy"};
    what = std::string(on[op]) + " on " + a.str() + "; " + b.str();
    at = [=](size_t n) {
      auto x = a.make(n), y = b.make(n);
      const double t = x->end_time() * u;
      std::vector<Sample> v(x->begin(), x->end());
      std::vector<double> p, q;
      for (auto& s : v) { p.push_back(s.value); q.push_back(s.time); }
      return measure([&]() -> uint64_t {
        switch (op) {
          case 0: { auto [f, g] = stl::signal::synchronize(x, y); return f->size() + g->size(); }
          case 1: return x->simplify()->size();
          case 2: return x->resize(t / 2, (t + x->end_time()) / 2, 0)->size();
          case 3: return x->resize(-1, x->end_time() + 1, 0)->size();
          case 4: return x->shift(3)->size();
          case 5: return (uint64_t)(x->at(t).value == 12345);
          case 6: return (uint64_t)(x->begin_at(t)->value + std::prev(x->end_at(t))->value == 12345);
          case 7: return Signal(v).size();
          case 8: return Signal(p, q).size();
          case 9: { Signal s; for (auto& z : v) s.push_back(z.time, z.value); return s.size(); }
          default: return Signal(*x).size();
        }
      });
    };
  } else if (kind >= 20) {
    family = "large formulas";
    const int op = r.range(0, 5);
    static const char* on[] = {"evaluating an operator with an operand for each of many signals", "evaluating a wide formula", "evaluating a deep formula", "evaluating one atom in a trace of many signals", "evaluating a constant in a trace of many signals", "evaluating a balanced formula"};
    what = on[op];
    if (op == 2) m = (size_t)r.range(20, 60);
    const bool either = r.chance(.5);
    at = [=](size_t n) {
      stl::signal::Trace t;
      auto s = [&](double v) { return std::make_shared<Signal>(std::vector<double>{v, v + 1, v}, std::vector<double>{0, 1, 3}); };
      std::vector<stl::ast::Expr> v;
      stl::ast::Expr e = stl::Predicate("s0") > .5;
      t["s0"] = s(0);
      auto atom = [&](size_t i, size_t j) -> stl::ast::Expr { stl::ast::Expr a = stl::Predicate("s" + std::to_string(j)) > (double)i; return i % 3 ? a : either ? stl::Eventually(a) : stl::Not(stl::Not(a)); };
      if (op == 0 || op == 3 || op == 4) for (size_t i = 1; i < n; i++) t["s" + std::to_string(i)] = s((double)i);
      switch (op) {
        case 0: case 1: for (size_t i = 0; i < n; i++) v.push_back(atom(i, op ? 0 : i)); e = either ? stl::And(v) : stl::Or(v); break;
        case 2: for (size_t i = 0; i < n; i++) e = i % 4 == 0 ? stl::Not(e) : i % 4 == 1 ? stl::Always(e) : i % 4 == 2 ? stl::And({e, stl::Predicate("s0") > -5}) : stl::Eventually(e); break;
        case 3: e = atom(n / 2, n / 2); break;
        case 4: e = stl::Const(either); break;
        default: for (size_t i = 0; i < n; i++) v.push_back(atom(i, 0));
          while (v.size() > 1) { std::vector<stl::ast::Expr> w; for (size_t i = 0; i + 1 < v.size(); i += 2) w.push_back(either ? stl::And({v[i], v[i + 1]}) : stl::Or({v[i], v[i + 1]})); if (v.size() % 2) w.push_back(v.back()); v = w; }
          e = v[0];
      }
      return measure([&] { return stl::semantics::compute_robustness(e, t)->size(); });
    };
  } else if (kind < 18) {
    family = "parsing";
    int op = r.range(0, 8);
    static const char* on[] = {"many commands", "a wide conjunction", "deep nesting", "a long comment", "blank lines", "definitions using each other", "long names", "a malformed end", "an unclosed wide term"};
    what = std::string("parsing ") + on[op];
    if (op == 2) m = 50; // nesting is limited
    if (op == 3 || op == 4) m *= 10;
    at = [=](size_t n) {
      std::string t;
      auto s = [](size_t k) { return std::to_string(k); };
      switch (op) {
        case 0: for (size_t i = 0; i < n; i++) t += (i % 2 ? "(assert a" : "(define-formula b") + s(i) + " (and (> x " + s(i) + ".5) (not (<= y 1e3))))\n"; break;
        case 1: t = "(assert a (and"; for (size_t i = 0; i < n; i++) t += " (> x " + s(i) + ")"; t += "))"; break;
        case 2: t = "(assert a "; for (size_t i = 0; i < n; i++) t += i % 3 ? "(not " : "(and (> x 1) "; t += "(> x 1)" + std::string(n, ')') + ")"; break;
        case 3: t = "; " + std::string(n, 'c') + "\n(assert a (> x 1))"; break;
        case 4: t = std::string(n, '\n') + "(assert a (> x 1))" + std::string(n, ' '); break;
        case 5: t = "(define-formula f0 (> x 1))"; for (size_t i = 1; i < n; i++) t += "(define-formula f" + s(i) + (i % 400 ? " (until f" + s(i - 1) + " f" + s(i - 1) + "))" : " (> y 2))"); break;
        case 6: { std::string name(n, 'n'); t = "(define-formula " + name + " (> x 1)) (assert " + name + "x " + name + ")"; break; }
        case 7: for (size_t i = 0; i < n; i++) t += "(assert a" + s(i) + " (and (> x 1) (or (> y 2) (> z 3))))\n"; t += "(assert b (and (> x 1)))"; break;
        default: t = "(assert a (or"; for (size_t i = 0; i < n; i++) t += " (always (> x " + s(i) + "))";
      }
      return measure([&]() -> uint64_t {
        try { auto p = stl::parser::from_string(t); return p->formulas.size() + p->assertions.size(); } catch (const std::exception&) { return 0; }
      });
    };
  } else {
    family = "printing";
    int op = r.range(0, 4);
    static const char* on[] = {"a wide formula", "a deep formula", "a signal", "a deep formula to a stream", "combining a long conjunction"};
    what = std::string("printing ") + on[op];
    if (op == 1 || op == 3) m = 60;
    if (op == 4) what = on[op];
    Shape a = shape(r);
    at = [=](size_t n) {
      stl::ast::Expr e = stl::ast::Predicate{"x", stl::ast::ComparisonOp::GT, .1};
      if (op == 0) {
        std::vector<stl::ast::Expr> v;
        for (size_t i = 0; i < n; i++) v.push_back(stl::ast::Predicate{"x", stl::ast::ComparisonOp::LT, (double)i / 3});
        e = stl::Or(v);
      } else if (op == 1 || op == 3) {
        for (size_t i = 0; i < n; i++) {
          if (i % 3 == 0) e = stl::Not(e);
          else if (i % 3 == 1) e = stl::And({stl::Predicate("y") > 1, e});
          else e = stl::Until(stl::Always(e, stl::ast::Interval{0., 1.5}), stl::Predicate("z") < 2);
        }
      } else if (op == 4) {
        std::vector<stl::ast::Expr> v;
        for (size_t i = 0; i < n; i++) v.push_back(stl::ast::Predicate{"x", stl::ast::ComparisonOp::LT, (double)i / 3});
        auto x = stl::And(v), y = stl::And(v);
        return measure([&]() -> uint64_t { return std::get<stl::ast::AndPtr>(x & y)->args.size(); });
      }
      auto s = a.make(n);
      return measure([&]() -> uint64_t {
        if (op == 2) return fmt::to_string(*s).size();
        if (op == 3) { std::ostringstream o; o << e; return o.str().size(); }
        return fmt::to_string(e).size();
      });
    };
  }
  c.desc(what + ", " + std::to_string(m) + " and " + std::to_string(m * factor));
  Cost one = at(m), big = at(m * factor);
  double ratio = (double)big.work / (double)std::max<uint64_t>(one.work, m);
  double outr = (double)big.out / (double)std::max<uint64_t>(one.out, m);
  c.count(std::string("measured_") + family);
  c.count("work_counted", one.work + big.work);
  auto& mx = (*c.counters)[std::string("max_ratio_x100_") + family];
  mx = std::max(mx, (uint64_t)(ratio * 100));
  auto& mo = (*c.counters)["max_result_ratio_x100"];
  mo = std::max(mo, (uint64_t)(outr * 100));
  static const bool show = getenv("VH_SHOW") != nullptr;
  if (show) fprintf(stderr, "%.1f %.1f %llu %s\n", ratio, outr, (unsigned long long)big.work, what.c_str());
  if (ratio > 45) c.fail("work", what + ": " + std::to_string(one.work) + " steps for " + std::to_string(m) + " but " + std::to_string(big.work) + " for " + std::to_string(m * factor) + ", " + num(ratio) + " times as many");
  if (outr > 45) c.fail("size", what + ": a result of " + std::to_string(one.out) + " for " + std::to_string(m) + " but " + std::to_string(big.out) + " for " + std::to_string(m * factor));
  c.nontrivial = true;
  c.hash = hash_str(what, m);
}
} // namespace vh
