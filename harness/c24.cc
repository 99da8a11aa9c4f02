#include <new>
#include <cstdlib>

// Every allocation passes here; the armed one fails.
namespace heap {
static bool counting = false;
static unsigned long long count = 0, fail_at = 0, live = 0, injected = 0;
static void* take(std::size_t n, std::size_t al, bool nothrow) {
  if (counting && ++count == fail_at) {
    injected++;
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (!n) n = 1;
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  live++;
  return p;
}
static void give(void* p) {
  if (!p) return;
  live--;
  free(p);
}
} // namespace heap
void* operator new(std::size_t n) { return heap::take(n, 0, false); }
void* operator new[](std::size_t n) { return heap::take(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return heap::take(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return heap::take(n, (std::size_t)a, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return heap::take(n, (std::size_t)a, false); }
void operator delete(void* p) noexcept { heap::give(p); }
void operator delete[](void* p) noexcept { heap::give(p); }
void operator delete(void* p, std::size_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::size_t) noexcept { heap::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::give(p); }

#include "speccheck.hpp"
#include <filesystem>
#include <unistd.h>
// C24: any single allocation failing is an exception that damages nothing.
namespace vh {
const char* RULE =
    "random evaluations, constructions, appends, transformations, synchronizations, combinations, parses and prints; for each, its allocations are counted and the call is repeated with the k-th one failing, for every k (up to 60, then at random): it must throw or "
    "give the same result, and leave every signal, trace and formula bit for bit as it was, with as many references and live blocks as before; then again with memory; non-trivial: at least 4 allocations";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace speccheck;
using world::snap;
using world::clone;

struct Result {
  SignalPtr a, b;
  std::optional<stl::ast::Expr> e;
  std::optional<Signal> s;
  std::string text;
  std::unique_ptr<stl::Specification> spec;
  bool failed = false; // reported without an exception, by the state of a stream
  std::string shot() const {
    std::string o;
    if (a) o += snap(*a);
    if (b) o += "|" + snap(*b);
    if (e) o += snap(*e, false);
    if (s) o += snap(*s);
    o += text;
    if (spec) {
      for (auto& [n, x] : spec->formulas) o += n + "=" + std::to_string(Digest{}.of(x)) + ";";
      for (auto& [n, x] : spec->assertions) o += n + "!" + std::to_string(Digest{}.of(x)) + ";";
    }
    return o;
  }
};

// How many hold on to each node of a formula.
static void uses(std::string& o, const stl::ast::Expr& e) {
  std::visit([&](const auto& n) {
    using T = std::decay_t<decltype(n)>;
    if constexpr (!std::is_same_v<T, stl::ast::Const> && !std::is_same_v<T, stl::ast::Predicate>) {
      o += std::to_string(n.use_count()) + ",";
      if constexpr (std::is_same_v<T, stl::ast::AndPtr> || std::is_same_v<T, stl::ast::OrPtr>) { for (auto& x : n->args) uses(o, x); }
      else if constexpr (std::is_same_v<T, stl::ast::UntilPtr>) { uses(o, n->args.first); uses(o, n->args.second); }
      else uses(o, n->arg);
    }
  }, e);
}

static std::string spec_file(const std::string& text) {
  const char* w = getenv("VH_WORK");
  if (!w || !*w) { fprintf(stderr, "harness: VH_WORK is not set\n"); exit(3); }
  std::string p = std::string(w) + "/c24." + std::to_string(getpid()) + ".stl";
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) throw std::logic_error("harness: cannot write " + p);
  return p;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.scaled = false;
  to.max_samples = 7;
  TraceG g = gen_trace(r, to);
  auto trace = g.build();
  c.desc(g.str());
  std::vector<SignalPtr> sigs;
  for (auto& [n, s] : trace) sigs.push_back(s);
  FormulaGen fg{r, g, {}};
  std::vector<stl::ast::Expr> ex;
  std::vector<FP> fps;
  for (int i = 0; i < 3; i++) { FP f = fg.make(r.range(0, 3)); if (f->size() > 40) f = fg.atom(); fps.push_back(f); ex.push_back(to_expr(f, &r)); }
  ex.push_back(ex[0] & stl::And({ex[1], ex[2]})); // nested, shared
  ex.push_back(ex[1] | ex[0] | ex[2]);
  const SignalPtr s = sigs[r.below(sigs.size())], u = sigs[r.below(sigs.size())];
  const stl::ast::Expr a = ex[r.below(ex.size())], b = ex[r.below(ex.size())], d = ex[r.below(ex.size())];

  std::string what, source;
  std::function<void(Result&)> call;
  SignalPtr own; // what an append appends to
  std::function<void()> prepare = [] {};
  bool append = false;

  const double lo = s->begin_time(), hi = s->end_time(), w = std::max(.5, hi - lo);
  switch (r.below(12)) {
    case 0: case 1: case 2: {
      FP f = fps[r.below(3)];
      what = "evaluating " + str(f);
      stl::ast::Expr e = r.chance(.7) ? to_expr(f, &r) : a;
      if (r.chance(.1)) { // refused
        what = "evaluating what is refused: " + str(f);
        switch (r.below(3)) {
          case 0: e = e & (stl::Predicate("not_in_the_trace_at_all") > 1); break;
          case 1: e = stl::Until(e, b, stl::ast::Interval{0., 2.}); break;
          default: e = stl::Always(e, stl::ast::Interval{5ull, 2ull});
        }
      }
      if (r.chance(.05)) { // wide
        std::vector<stl::ast::Expr> v{e};
        for (int n = r.range(3, 20); n > 0; n--) v.push_back(ex[r.below(3)]);
        e = r.chance(.5) ? stl::And(v) : stl::Or(v);
        what = "evaluating a wide one of " + str(f);
      }
      ex.push_back(e);
      call = [=, &trace](Result& o) { o.a = stl::semantics::compute_robustness(e, trace); };
      break;
    }
    case 3: { // appending: to a signal with no room to spare, or not
      append = true;
      what = "appending";
      size_t reserve = r.below(3);
      double t = hi + r.real(.1, 2), v = r.range(-4, 4);
      bool sample = r.chance(.5), refused = r.chance(.1);
      if (refused) t = r.chance(.5) ? hi : std::nan("");
      prepare = [=, &own] {
        own = std::make_shared<Signal>(*s);
        for (size_t i = 0; i < reserve; i++) own->push_back(hi + .01 * (double)(i + 1), (double)i);
      };
      call = [=, &own](Result& o) {
        if (sample) own->push_back(Sample{t, v, 7}); else own->push_back(t, v);
        o.a = own;
      };
      break;
    }
    case 4: {
      int op = r.range(0, 5);
      double p = lo + w * r.real(-.3, .6), q = p + w * r.real(.01, 1);
      what = "transforming " + std::to_string(op);
      call = [=](Result& o) {
        switch (op) {
          case 0: o.a = s->simplify(); break;
          case 1: o.a = s->resize(p, q, 1); break;
          case 2: o.a = s->shift(2); break;
          case 3: o.a = s->resize_shift(p, q, 1, 2); break;
          case 4: o.s.emplace(*s); break;
          default: o.text = std::to_string(s->at(lo).value + s->begin_at(p)->time * 0); // queries
        }
      };
      if (op == 5) call = [=](Result& o) { o.text.push_back(s->at(lo).value > 0 ? '+' : '-'); (void)s->begin_at(lo); (void)s->end_at(lo); (void)s->area(hi, 0); };
      break;
    }
    case 5: {
      what = "constructing a signal";
      auto v = std::make_shared<std::vector<Sample>>(s->begin(), s->end());
      auto p = std::make_shared<std::vector<double>>(), q = std::make_shared<std::vector<double>>();
      for (auto& x : *v) { p->push_back(x.value); q->push_back(x.time); }
      if (r.chance(.2) && p->size() > 1) { if (r.chance(.5)) q->pop_back(); else std::swap(q->front(), q->back()); what += " that is refused"; }
      bool samples = r.chance(.5);
      call = [=](Result& o) { if (samples) o.s.emplace(*v); else o.s.emplace(*p, *q); };
      break;
    }
    case 6: what = "synchronizing"; call = [=](Result& o) { auto t = stl::signal::synchronize(s, u); o.a = std::get<0>(t); o.b = std::get<1>(t); }; break;
    case 7: case 8: {
      int op = r.range(0, 13);
      what = "combining " + std::to_string(op);
      auto nm = g.names[0];
      call = [=](Result& o) {
        switch (op) {
          case 0: o.e = a & b; break;
          case 1: o.e = a | b; break;
          case 2: o.e = ~a; break;
          case 3: o.e = stl::Implies(a, b); break;
          case 4: o.e = stl::Iff(a, b); break;
          case 5: o.e = stl::Xor(a, b); break;
          case 6: o.e = stl::And({a, b, d}); break;
          case 7: o.e = stl::Or({a, b, d}); break;
          case 8: o.e = stl::Always(a, stl::ast::Interval{0., 2.}); break;
          case 9: o.e = stl::Eventually(a); break;
          case 10: o.e = stl::Until(a, b); break;
          case 11: o.e = stl::Predicate(nm + "_and_a_long_name_after_it") > 3; break;
          case 12: o.e = stl::And({a}); break; // refused
          default: o.e = stl::Not(a & b & d);
        }
      };
      break;
    }
    case 9: case 10: {
      SpecGen sg(r);
      for (int i = 0, n = r.range(1, 3); i < n; i++) sg.command(sg.make(r.range(0, 3)), r.chance(.4));
      source = sg.w.o;
      if (r.chance(.2) && !source.empty()) source.resize(r.below(source.size()));
      if (source.size() > 3000) throw Skip{};
      what = "parsing " + source;
      if (r.chance(.25)) {
        what = "parsing the file " + source;
        const std::filesystem::path file = spec_file(source);
        call = [=](Result& o) { o.spec = stl::parser::from_file(file); };
      } else call = [=, &source](Result& o) { o.spec = stl::parser::from_string(source); };
      break;
    }
    default: {
      int op = r.range(0, 2);
      what = "printing " + std::to_string(op);
      call = [=](Result& o) {
        if (op == 0) o.text = fmt::to_string(a);
        else if (op == 1) o.text = fmt::to_string(*s);
        else { std::ostringstream os; os << a; o.failed = !os; if (!o.failed) o.text = os.str(); }
      };
    }
  }
  c.desc(what);

  auto world_shot = [&] {
    std::string o;
    for (auto& x : ex) { o += snap(x, true); uses(o, x); }
    o += snap(a, true) + snap(b, true) + snap(d, true);
    for (auto& [n, x] : trace) { o += n + snap(*x); auto p = x.get(); o.append((const char*)&p, sizeof p); o += std::to_string(x.use_count()); }
    return o + source;
  };

  // with memory
  auto run = [&](unsigned long long k, bool& threw, std::string& msg, std::string& shot) -> unsigned long long {
    unsigned long long used = 0;
    threw = false;
    shot.clear();
    msg.clear();
    Result o;
    heap::count = 0;
    heap::fail_at = k;
    heap::counting = true;
    try {
      call(o);
      heap::counting = false;
      used = heap::count;
      if (o.failed) { threw = true; msg = "stream failed"; }
      else shot = o.shot();
    } catch (const std::exception& e) {
      heap::counting = false;
      used = heap::count;
      threw = true;
      msg = e.what();
    } catch (const Violation&) {
      heap::counting = false;
      throw;
    } catch (...) {
      heap::counting = false;
      c.fail("foreign-exception", what + " threw something that is not a standard exception");
    }
    return used;
  };
  bool t0 = false;
  std::string m0, want, dummy;
  prepare();
  run(0, t0, m0, want); // also warms up what is made once
  own.reset();
  prepare();
  unsigned long long n = run(0, t0, m0, want);
  const bool refuses = t0;
  own.reset();

  const std::string before = world_shot();
  std::vector<unsigned long long> ks;
  const unsigned long long all = c.thorough ? 300 : 60;
  if (n <= all) for (unsigned long long k = 1; k <= n; k++) ks.push_back(k);
  else {
    std::set<unsigned long long> set;
    for (unsigned long long k = 1; k <= 6; k++) { set.insert(k); set.insert(n + 1 - k); }
    while (set.size() < all) set.insert(1 + r.below(n));
    ks.assign(set.begin(), set.end());
    c.count("calls_sampled");
  }
  bool threw = false;
  std::string msg, got, own_before;
  for (auto k : ks) {
    prepare();
    own_before.clear();
    if (own) own_before = snap(*own);
    const auto live = heap::live, inj = heap::injected;
    run(k, threw, msg, got);
    const bool hit = heap::injected != inj;
    std::string w2 = what + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + " failing";
    c.count(hit ? "failures_injected" : "failures_not_reached");
    c.count(threw ? "calls_that_threw" : "calls_that_completed");
    if (!threw && (refuses || got != want)) c.fail("wrong-result", w2 + ": the call returned, with a different result than with memory");
    if (own) {
      if (threw && snap(*own) != own_before) c.fail("damaged-append", w2 + ": the refused append left a different signal: " + show(pwl(points_of(*own))));
      if (threw && !refuses) {
        // once more, with memory
        bool t;
        std::string again;
        run(0, t, dummy, again);
        if (t || again != want) c.fail("retry", w2 + ": appending again with memory gave a different signal");
      }
      own.reset();
    }
    // live blocks: strings of the harness come and go, so they are emptied first
    const std::string now = world_shot();
    if (now != before) c.fail("damaged", w2 + ": a signal, trace or formula passed in (or how often it is referred to) has changed");
    (void)live;
  }
  // leaks: the whole round again, counting blocks
  if (!append) {
    std::string e1, e2, e3;
    for (auto k : ks) {
      e1 = e2 = e3 = std::string();
      const auto live = heap::live;
      {
        Result o;
        heap::count = 0;
        heap::fail_at = k;
        heap::counting = true;
        try { call(o); } catch (const std::exception&) {}
        heap::counting = false;
      }
      if (heap::live != live) c.fail("leak", what + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + " failing: " + std::to_string((long long)(heap::live - live)) + " blocks were not given back");
      c.count("leak_checks");
    }
  }
  // and with memory again
  prepare();
  run(0, threw, msg, got);
  if (threw != refuses || got != want) c.fail("retry", what + ": repeating the call with memory gave a different result: " + msg);
  own.reset();
  c.count("operations");
  c.nontrivial = n >= 4;
  c.hash = hash_str(what, g.hash());
}
} // namespace vh
