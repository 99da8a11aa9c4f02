#include "sig.hpp"
// C16: synchronize against the two operands as functions.
namespace vh {
const char* RULE =
    "random pairs of signals: shared, disjoint, nested, touching and partly overlapping ranges, shared and almost equal sample times, single samples, up to 700 samples; non-trivial: ranges overlap and the sample times differ";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace sig;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  Points p = gen_points(r, 12, r.chance(.3)), q;
  const double inf = std::numeric_limits<double>::infinity();
  switch (r.below(9)) {
    case 0: q = gen_points(r, 12, false); break;
    case 1: { // the same times
      q = p;
      auto v = gen_values(r, q.size(), (int)r.below(11));
      for (size_t i = 0; i < q.size(); i++) q[i].second = v[i];
      break;
    }
    case 2: case 3: case 4: { // some shared times, some new, maybe shifted
      double sh = r.chance(.5) ? 0 : (p.back().first - p.front().first) * r.real(-1, 1);
      for (auto [t, v] : p) if (r.chance(.6)) q.push_back({t + sh, v + r.range(-2, 2)});
      size_t n = p.size();
      for (size_t i = 0; i + 1 < n; i++) if (r.chance(.4)) q.push_back({p[i].first + (p[i + 1].first - p[i].first) * r.unit() + sh, (double)r.range(-5, 5)});
      if (q.empty()) q.push_back(p[0]);
      std::sort(q.begin(), q.end());
      break;
    }
    case 5: // touching
      q = gen_points(r, 8, false);
      { double sh = r.chance(.5) ? p.back().first - q.front().first : p.front().first - q.back().first; for (auto& x : q) x.first += sh;
        if (r.chance(.7)) { if (q.front().first < p.front().first) q.back().first = p.front().first; else q.front().first = p.back().first; std::sort(q.begin(), q.end()); } }
      break;
    case 6: if (r.chance(.3)) { // sharing only an instant or very little more
        q = gen_points(r, 8, false);
        double m = p.back().first, sh = m - q.front().first;
        for (auto& x : q) x.first += sh;
        q.front().first = m;
        for (int k = r.range(0, 3); k > 0; k--) q.front().first = next_to(q.front().first, -inf);
        std::sort(q.begin(), q.end());
        if (q.front().first < p.front().first) q.front().first = p.front().first;
        break;
      }
      // disjoint, maybe by one ulp
      q = gen_points(r, 8, false);
      { double gap = r.chance(.5) ? 1 : 0;
        if (r.chance(.5)) { double sh = p.back().first + gap - q.front().first; for (auto& x : q) x.first += sh; q.front().first = next_to(std::max(q.front().first, p.back().first), inf); }
        else { double sh = p.front().first - gap - q.back().first; for (auto& x : q) x.first += sh; q.back().first = next_to(std::min(q.back().first, p.front().first), -inf); }
        std::sort(q.begin(), q.end()); }
      break;
    case 7: { // a single sample at, between or next to samples
      double t = p[r.below(p.size())].first;
      if (r.chance(.3)) t = next_to(t, r.chance(.5) ? inf : -inf);
      if (r.chance(.3)) t = p.front().first + (p.back().first - p.front().first) * r.unit();
      q = {{t, (double)r.range(-5, 5)}};
      break;
    }
    default: // neighbouring times
      for (auto [t, v] : p) q.push_back({r.chance(.5) ? t : next_to(t, r.chance(.5) ? inf : -inf), -v});
      std::sort(q.begin(), q.end());
  }
  q.erase(std::unique(q.begin(), q.end(), [](auto& a, auto& b) { return a.first == b.first; }), q.end());
  if (r.chance(.5)) std::swap(p, q);
  c.desc("x:" + show(p));
  c.desc("y:" + show(q));
  const bool same = r.chance(.03); // a signal with itself
  if (same) q = p;
  SignalPtr x = make(p), y = same ? x : make(q);
  if (!same && r.chance(.03)) (r.chance(.5) ? x : y) = std::make_shared<Signal>();
  c.count("with_itself", same);
  const std::string bx = shot(*x), by = shot(*y);
  const double b = std::max(p.front().first, q.front().first), e = std::min(p.back().first, q.back().first);
  const bool none = x->empty() || y->empty() || b > e;
  SignalPtr u, v;
  bool threw = false;
  try {
    std::tie(u, v) = stl::signal::synchronize(x, y);
  } catch (const std::exception& ex) {
    threw = true;
    if (!none) c.fail("threw", std::string("signals with common instants were refused: ") + ex.what());
  }
  if (shot(*x) != bx || shot(*y) != by) c.fail("changed", "synchronize changed its operands");
  if (none) {
    if (!threw) c.fail("not-refused", "signals without a common instant were synchronized");
    c.count("refusals");
    return;
  }
  if (!u || !v || u == v) c.fail("null", "synchronize did not return two signals");
  Pwl fu = pwl(c, *u, "the first result"), fv = pwl(c, *v, "the second result");
  check_contents(c, *u, points_of(*u), "the first result");
  check_contents(c, *v, points_of(*v), "the second result");
  if (fu.t != fv.t) c.fail("times", "the results have different sample times\n " + gen::show(fu) + "\n " + gen::show(fv));
  if ((double)fu.begin() != b || (double)fu.end() != e) c.fail("range", "covers [" + num((double)fu.begin()) + ", " + num((double)fu.end()) + "] instead of [" + num(b) + ", " + num(e) + "]");
  auto contains = [&](const Points& o, const Signal& s, const char* what) {
    for (auto [t, val] : o) {
      if (t < b || t > e) continue;
      auto it = std::lower_bound(s.begin(), s.end(), t, [](const Sample& a, double t) { return a.time < t; });
      if (it == s.end() || it->time != t) c.fail("missing", std::string("the results do not contain the sample time ") + num(t) + " of " + what);
    }
  };
  contains(p, *u, "x");
  contains(q, *u, "y");
  auto equal = [&](const Points& o, const Signal& s, const Pwl& f, const char* what) {
    Pwl g = pwl(o);
    for (auto& smp : s) {
      size_t i = g.seg(smp.time);
      R want = g.at(smp.time);
      bool own = (R)smp.time == g.t[i];
      R scale = std::max(std::fabs(g.v[i]), std::fabs(g.v[std::min(i + 1, g.size() - 1)]));
      if (own ? !same_bits(smp.value, (double)want) : !(std::fabs((R)smp.value - want) <= 1e-13L * scale + 1e-300L))
        c.fail("value", std::string(what) + " resampled at " + num(smp.time) + " has value " + num(smp.value) + " instead of " + num((double)want));
      c.count("samples_compared");
    }
    (void)f;
  };
  equal(p, *u, fu, "x");
  equal(q, *v, fv, "y");
  // results are independent of the operands
  u->push_back(u->end_time() + std::max(1., std::fabs(u->end_time())), 0);
  if (shot(*x) != bx || shot(*y) != by || points_of(*v).size() != fv.size()) c.fail("aliased", "appending to a result changed something else");
  c.nontrivial = b < e && fu.size() > std::max((size_t)2, std::min(p.size(), q.size()));
  c.hash = hash_bytes(p.data(), p.size() * sizeof p[0], hash_bytes(q.data(), q.size() * sizeof q[0]));
}
} // namespace vh
