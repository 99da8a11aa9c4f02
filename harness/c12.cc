#include "world.hpp"
#include <atomic>
#include <thread>
// C12: concurrent use of shared inputs. The threads run first, the sequential reference afterwards, so that
// whatever is initialised lazily is initialised under concurrency.
namespace vh {
const char* RULE =
    "4-8 threads run the same 8-24 calls (evaluate, query, transform, synchronize, combine, print, parse, copy, construct, destroy) on shared objects in different orders with random delays; "
    "every result is compared bit for bit with the sequential one; the ThreadSanitizer build watches every access; non-trivial: at least 3 kinds of calls, evaluations among them; distinct: by the order in which the calls of all threads started";
void setup(bool) {}
static std::set<std::string> g_kinds;
void finish(std::map<std::string, uint64_t>& k) { k["max_kinds_of_calls"] = g_kinds.size(); }
using namespace gen;
namespace A = stl::ast;
using world::snap;

static std::string spec_file(const std::string& text, int k) {
  const char* w = getenv("VH_WORK");
  if (!w || !*w) { fprintf(stderr, "harness: VH_WORK is not set\n"); exit(3); }
  std::string p = std::string(w) + "/c12." + std::to_string(getpid()) + "." + std::to_string(k) + ".stl";
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) throw std::logic_error("harness: cannot write " + p);
  return p;
}

struct Task { const char* kind; std::function<std::string()> run; };

template <typename Fn>
static std::string guarded(Fn&& fn) {
  try {
    return fn();
  } catch (const std::exception& e) {
    return std::string("threw ") + e.what();
  }
}

static std::string spec_snap(const stl::Specification& s) {
  std::string o;
  for (auto& [n, e] : s.formulas) o += n + "=" + snap(e, false);
  for (auto& [n, e] : s.assertions) o += "!" + n + "=" + snap(e, false);
  return o;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.scaled = false;
  to.max_samples = r.chance(.04) ? 150 : 10;
  TraceG g = gen_trace(r, to);
  static const char* nm[] = {"x", "y", "z"};
  g.names.assign(nm, nm + g.sig.size());
  auto trace = std::make_shared<stl::signal::Trace>(g.build());
  auto exprs = std::make_shared<std::vector<A::Expr>>();
  FormulaGen fg{r, g, {}};
  fg.o.share = .3;
  int nf = r.range(2, 5);
  for (int i = 0; i < nf; i++) {
    FP f = fg.make(r.range(1, 4));
    if (f->size() > 40) f = fg.make(1);
    c.desc("formula: " + str(f));
    exprs->push_back(to_expr(f, &r));
    if (r.chance(.06)) { // refused when evaluated
      switch (r.below(3)) {
        case 0: exprs->push_back(exprs->back() & (stl::Predicate("nowhere") > 1)); break;
        case 1: exprs->push_back(stl::Until(exprs->back(), exprs->back(), A::Interval{0., 2.})); break;
        default: exprs->push_back(stl::Always(exprs->back(), A::Interval{5ull, 2ull}));
      }
    }
    if (r.chance(.06)) { // wide
      std::vector<A::Expr> v;
      for (int m = r.range(2, 30); m > 0; m--) v.push_back((*exprs)[r.below(exprs->size())]);
      if (v.size() > 1) exprs->push_back(r.chance(.5) ? stl::And(v) : stl::Or(v));
    }
    if (r.chance(.5)) exprs->push_back(stl::Not(exprs->back())); // shares the sub-formula
    if (r.chance(.5)) exprs->push_back(exprs->back() & (*exprs)[0]);
  }
  c.desc(g.str());
  std::vector<SignalPtr> sigs;
  for (auto& [n, s] : *trace) sigs.push_back(s);
  const bool tied = r.chance(.3); // all threads at the same object
  auto any_sig = [&] { return tied ? sigs[0] : sigs[r.below(sigs.size())]; };
  auto any_expr = [&] { return tied ? (*exprs)[0] : (*exprs)[r.below(exprs->size())]; };

  std::vector<Task> tasks;
  int nt = r.range(8, 24);
  int only = r.chance(.3) ? (int)r.below(12) : -1;
  for (int k = 0; k < nt; k++) {
    int op = only >= 0 && r.chance(.7) ? only : (int)r.below(12);
    switch (op) {
      case 0: case 1: case 2: {
        auto e = any_expr();
        bool sync = r.chance(.2);
        tasks.push_back({"evaluate", [e, trace, sync] { return snap(*stl::semantics::compute_robustness(e, *trace, sync)); }});
        break;
      }
      case 3: {
        auto s = any_sig();
        double b = s->begin_time(), w = s->end_time() - b;
        std::vector<double> q;
        for (int i = 0; i < 6; i++) q.push_back(b + w * r.real(-.1, 1.1));
        tasks.push_back({"query", [s, q] {
          std::string o;
          for (double t : q) {
            try { world::bits(o, s->at(t).value); } catch (const std::exception& x) { o += x.what(); }
            o += std::to_string(s->begin_at(t) - s->begin()) + "/" + std::to_string(s->end_at(t) - s->begin());
          }
          return o;
        }});
        break;
      }
      case 4: {
        auto s = any_sig();
        double b = s->begin_time(), w = s->end_time() - b, x = b + w * r.real(-.2, 1), y = x + w * r.real(0, 1), dt = r.range(-3, 3);
        tasks.push_back({"transform", [=] { return snap(*s->simplify()) + snap(*s->resize(x, y, 1)) + snap(*s->shift(dt)) + snap(*s->resize_shift(b, b + w, 0, 0)); }});
        break;
      }
      case 5: {
        auto x = any_sig(), y = any_sig();
        tasks.push_back({"synchronize", [=] { auto [u, v] = stl::signal::synchronize(x, y); return snap(*u) + snap(*v); }});
        break;
      }
      case 6: {
        auto a = any_expr(), b = any_expr();
        tasks.push_back({"combine", [=] {
          std::string o;
          for (const A::Expr& e : {a & b, a | b, ~a, stl::Implies(a, b), stl::Xor(a, b), stl::Iff(a, b), stl::Always(a), stl::Until(a, b), stl::And({a, b, a})}) o += snap(e, false);
          return o;
        }});
        break;
      }
      case 7: {
        auto a = any_expr();
        auto s = any_sig();
        tasks.push_back({"print", [=] { std::ostringstream o; o << a; return o.str() + fmt::to_string(a) + fmt::to_string(*s); }});
        break;
      }
      case 8: case 9: {
        if (r.chance(.1)) { // refused appends and look-ups
          auto s = any_sig();
          tasks.push_back({"refused", [=] {
            std::string o;
            Signal q(*s);
            for (double t : {q.end_time(), q.begin_time() - 1, std::nan("")})
              for (int way : {0, 1}) {
                try { if (way) q.push_back(t, 1); else o += std::to_string(q.at(t).value); } catch (const std::exception& x) { o += x.what(); }
              }
            try { A::Interval i{2., 1.}; } catch (const std::exception& x) { o += x.what(); }
            try { stl::And({A::Const{true}}); } catch (const std::exception& x) { o += x.what(); }
            return o + snap(q);
          }});
          break;
        }
        static const char* T[] = {
            "(define-formula a (and (> x 1.25) (not (< y 2.5e-3)))) (assert b (always a))",
            "(define-formula p (eventually (<= 3 x)))\n(define-formula q (until p (or p (>= y 0.1))))\n(assert r (xor p q))",
            "(assert a b)", "(assert a (and (> x 1)))", "(assert a (> x", "(define-formula a (> x 1e999))"};
        std::string t = T[r.below(6)];
        if (r.chance(.6)) { auto n = spec::number(r); t = "(define-formula f (or (> x " + n.text + ") (not true) (<= " + n.text + " y))) (assert a (eventually f))"; }
        if (r.chance(.25)) {
          const auto file = spec_file(t, k);
          tasks.push_back({"parse file", [=] { return spec_snap(*stl::parser::from_file(file)); }});
          break;
        }
        tasks.push_back({"parse", [=] { return spec_snap(*stl::parser::from_string(t)); }});
        break;
      }
      case 10: {
        auto s = any_sig();
        tasks.push_back({"copy", [=] { Signal q(*s); q.push_back(q.end_time() + 1, 5); return snap(q); }});
        break;
      }
      default: {
        auto e = any_expr();
        tasks.push_back({"rebuild", [=] { A::Expr x = e; std::vector<A::Expr> v(5, x); x = A::Const{true}; return snap(world::clone(v[3]), false); }});
      }
    }
  }
  std::set<std::string> kinds;
  for (auto& t : tasks) kinds.insert(t.kind);
  g_kinds.insert(kinds.begin(), kinds.end());

  const int n = r.range(4, 8), rounds = r.range(1, 3);
  std::vector<std::vector<std::vector<std::string>>> got((size_t)n);
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  std::atomic<uint64_t> ticket{0}; // relaxed throughout: it must not order the threads
  std::vector<std::vector<uint64_t>> seen((size_t)n);
  std::vector<uint64_t> overlaps((size_t)n, 0);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < n; i++) seeds.push_back(r.next());
  const int delays = (int)r.below(3);
  for (int i = 0; i < n; i++) {
    got[(size_t)i].assign((size_t)rounds, std::vector<std::string>(tasks.size()));
    // every thread has copies of the tasks (and so shares the objects), and drops them at the end
    th.emplace_back([i, n, rounds, delays, seed = seeds[(size_t)i], mine = tasks, out = &got[(size_t)i], tk = &seen[(size_t)i], ov = &overlaps[(size_t)i], &ready, &ticket]() mutable {
      Rng q(seed);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) {}
      for (int k = 0; k < rounds; k++) {
        std::vector<size_t> order(mine.size());
        for (size_t j = 0; j < order.size(); j++) order[j] = j;
        if (q.chance(.7)) q.shuffle(order); // otherwise all in step
        for (size_t j : order) {
          if (delays == 1 && q.chance(.2)) std::this_thread::yield();
          if (delays == 2 && q.chance(.1)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(60)));
          uint64_t before = ticket.fetch_add(1, std::memory_order_relaxed);
          (*out)[(size_t)k][j] = guarded(mine[j].run);
          uint64_t after = ticket.fetch_add(1, std::memory_order_relaxed);
          *ov += after != before + 1;
          tk->push_back(before);
        }
      }
      if (q.chance(.5)) mine.clear();
    });
  }
  for (auto& t : th) t.join();
  c.count("threads_run", (uint64_t)n);
  // alone
  for (size_t j = 0; j < tasks.size(); j++) {
    std::string want = guarded(tasks[j].run);
    for (int i = 0; i < n; i++)
      for (int k = 0; k < rounds; k++) {
        c.count("results_compared");
        if (got[(size_t)i][(size_t)k][j] != want)
          c.fail("differs", std::string("a call (") + tasks[j].kind + ") made while others were running gave a different result than alone");
      }
  }
  c.count("calls_made", tasks.size() * (uint64_t)(n * rounds));
  for (auto& k : kinds) c.count("cases_with_" + k);
  c.nontrivial = kinds.size() >= 3 && kinds.count("evaluate");
  uint64_t h = c.index * 31 + c.seed;
  for (auto& v : seen) h = hash_bytes(v.data(), v.size() * 8, h);
  for (auto o : overlaps) c.count("calls_overlapped_by_others", o);
  c.hash = h; // the case and its interleaving of calls
}
} // namespace vh
