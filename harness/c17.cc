#include "sig.hpp"
// C17: simplify, resize, shift, resize_shift.
namespace vh {
const char* RULE =
    "random signals (single samples, collinear stretches, up to 700 samples) simplified, shifted, resized to ranges inside, outside, across, at samples and next to them, with finite and infinite fill; "
    "compared with the original as a function; non-trivial: at least 3 samples and a range that overlaps";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace sig;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  const double inf = std::numeric_limits<double>::infinity();
  Points p = gen_points(r, 12, r.chance(.4));
  if (r.chance(.02)) p.clear();
  c.desc("signal:" + show(p));
  SignalPtr s = make(p);
  const std::string before = shot(*s);
  auto unchanged = [&](const char* what) { if (shot(*s) != before) c.fail("changed", std::string(what) + " changed the signal"); };
  auto result = [&](const SignalPtr& o, const char* what) {
    if (!o) c.fail("null", what);
    if (o == s) c.fail("aliased", std::string(what) + " returned the signal itself");
    unchanged(what);
  };
  // simplify
  {
    SignalPtr o = s->simplify();
    result(o, "simplify");
    auto q = points_of(*o);
    size_t j = 0;
    for (auto& x : q) {
      while (j < p.size() && !(p[j].first == x.first && same_bits(p[j].second, x.second))) j++;
      if (j++ == p.size()) c.fail("simplify-sample", "simplify made up the sample (" + num(x.first) + ", " + num(x.second) + ")");
    }
    if (q.empty() != p.empty()) c.fail("simplify-empty", "simplify dropped every sample");
    if (!p.empty()) {
      check_contents(c, *o, q, "simplify");
      if (q.front().first != p.front().first || q.back().first != p.back().first) c.fail("simplify-range", "simplify changed the time range");
      Pwl f = pwl(q);
      for (size_t i = 0; i < p.size(); i++) {
        size_t k = f.seg(p[i].first);
        R scale = std::max(std::fabs(f.v[k]), std::fabs(f.v[std::min(k + 1, f.size() - 1)]));
        if (!(std::fabs(f.at(p[i].first) - (R)p[i].second) <= 1e-12L * scale)) c.fail("simplify-value", "simplify changed the value at " + num(p[i].first) + " from " + num(p[i].second) + " to " + num((double)f.at(p[i].first)));
      }
      c.count("samples_dropped", p.size() - q.size());
    }
  }
  auto shifted = [&](const Points& q, double dt) { Points o = q; for (auto& x : o) x.first += dt; return o; };
  auto increasing = [](const Points& q) { for (size_t i = 0; i + 1 < q.size(); i++) if (!(q[i + 1].first > q[i].first)) return false; return true; };
  // the slopes of `from` are kept, as far as the rounding of times allows
  auto check_shift = [&](const Signal& from, const Signal& o, double dt, const char* what) {
    Points want = shifted(points_of(from), dt);
    if (o.size() != want.size()) c.fail("shift", std::string(what) + " has " + std::to_string(o.size()) + " samples instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < want.size(); i++) {
      Sample x = o.at_idx(i), y = from.at_idx(i);
      if (x.time != want[i].first) c.fail("shift", std::string(what) + " by " + num(dt) + " moved the sample at " + num(y.time) + " to " + num(x.time));
      if (!same_bits(x.value, y.value)) c.fail("shift", std::string(what) + " changed the value at " + num(y.time));
      R gap = i + 1 < want.size() ? std::min((R)want[i + 1].first - want[i].first, (R)from.at_idx(i + 1).time - y.time) : 1;
      R rel = 1e-12L + 4 * 2.3e-16L * std::max(std::fabs((R)x.time), std::fabs((R)y.time)) / gap;
      if (std::isfinite(y.derivative) ? !(std::fabs((R)x.derivative - y.derivative) <= rel * std::fabs((R)y.derivative) + 1e-300L) : !same_bits(x.derivative, y.derivative))
        c.fail("shift-slope", std::string(what) + " changed the slope at " + num(y.time) + " from " + num(y.derivative) + " to " + num(x.derivative));
      c.count("samples_checked");
    }
  };
  // by an amount that takes a sample onto a round time, or next to one
  auto near_shift = [&](const Points& q) {
    double to = r.chance(.5) ? 0 : r.chance(.5) ? r.range(-100, 100) : (double)r.below(1ull << r.below(40));
    if (r.chance(.7)) to += r.range(-9, 9) * std::pow(10., -r.range(1, 17));
    return to - (r.chance(.5) ? q.front() : r.chance(.5) ? q.back() : q[r.below(q.size())]).first;
  };
  {
    const double dts[] = {0, 1, -1, .5, 1e6, -1e6, r.real(-10, 10), p.empty() ? 0 : -p.front().first};
    double dt = dts[r.below(8)];
    if (!p.empty() && r.chance(.4)) dt = near_shift(p);
    if (increasing(shifted(p, dt))) {
      SignalPtr o = s->shift(dt);
      result(o, "shift");
      check_shift(*s, *o, dt, "shift");
    }
  }
  // resize
  bool overlaps = false;
  for (int k = 0; k < 4; k++) {
    const double b = p.empty() ? 0 : p.front().first, e = p.empty() ? 1 : p.back().first, w = e > b ? e - b : std::max(1., std::fabs(b));
    auto instant = [&]() -> double {
      switch (r.below(7)) {
        case 0: return p.empty() ? r.range(-3, 3) : p[r.below(p.size())].first;
        case 1: return p.empty() ? 0 : next_to(p[r.below(p.size())].first, r.chance(.5) ? inf : -inf);
        case 2: return b - w * r.real(0, 1);
        case 3: return e + w * r.real(0, 1);
        case 4: return b + .5 * r.range(-4, 8);
        default: return b + w * r.unit();
      }
    };
    double lo = instant(), hi = r.chance(.1) ? lo : instant();
    if (lo > hi) std::swap(lo, hi);
    const double fills[] = {0, 1, -3.5, r.real(-100, 100), inf, -inf};
    const double fill = fills[r.below(r.chance(.3) ? 6 : 4)];
    c.desc("resize to [" + num(lo) + ", " + num(hi) + "] fill " + num(fill));
    SignalPtr o = s->resize(lo, hi, fill);
    result(o, "resize");
    if (o->empty() || o->begin_time() != lo || o->end_time() != hi)
      c.fail("resize-range", "resize to [" + num(lo) + ", " + num(hi) + "] gave" + (o->empty() ? " nothing" : " [" + num(o->begin_time()) + ", " + num(o->end_time()) + "]") + show(points_of(*o)));
    check_contents(c, *o, points_of(*o), "resize");
    auto inside = [&](double t) { return !p.empty() && t >= b && t <= e; };
    if (!inside(lo) && !same_bits(o->front().value, fill)) c.fail("fill", "the value at the start, outside of the original's range, is " + num(o->front().value) + " instead of " + num(fill));
    if (!inside(hi) && !same_bits(o->back().value, fill)) c.fail("fill", "the value at the end, outside of the original's range, is " + num(o->back().value) + " instead of " + num(fill));
    // equal on the overlap
    const double ob = std::max(lo, b), oe = std::min(hi, e);
    if (!p.empty() && ob <= oe) {
      if (ob < oe) overlaps = true;
      Pwl f = pwl(p);
      std::vector<double> qs{ob, oe};
      for (auto [t, v] : p) if (t > ob && t < oe) qs.push_back(t);
      for (auto& x : *o) if (x.time > ob && x.time < oe) qs.push_back(x.time);
      for (int i = 0; i < 5; i++) qs.push_back(std::min(oe, ob + (oe - ob) * r.unit()));
      for (double t : qs) {
        size_t i = f.seg(t);
        R scale = std::max(std::fabs(f.v[i]), std::fabs(f.v[std::min(i + 1, f.size() - 1)]));
        double got = o->at(t).value;
        // an instant next to a bound may lie on a segment whose slope is not exact to the last bit
        if (!(std::fabs((R)got - f.at(t)) <= 1e-12L * scale + 1e-300L)) {
          // segments cut short: the slope is computed from nearby times
          size_t k2 = pwl(points_of(*o)).seg(t);
          R a = o->at_idx(k2).time, z = k2 + 1 < o->size() ? (R)o->at_idx(k2 + 1).time : a;
          (void)z;
          c.fail("resize-value", "at " + num(t) + " the resized signal is " + num(got) + ", the original " + num((double)f.at(t)) + "\n " + show(points_of(*o)));
        }
        c.count("instants_compared");
      }
      // samples of the original within the range are still there
      for (auto [t, v] : p)
        if (t >= lo && t <= hi && !same_bits(o->at(t).value, v)) c.fail("resize-value", "the value at the sample time " + num(t) + " changed from " + num(v) + " to " + num(o->at(t).value));
    }
    double dt = r.chance(.3) ? 0 : r.chance(.3) ? near_shift(points_of(*o)) : r.range(-10, 10) * .5;
    if (increasing(shifted(points_of(*o), dt))) {
      SignalPtr t = s->resize_shift(lo, hi, fill, dt);
      result(t, "resize_shift");
      check_shift(*o, *t, dt, "resize_shift");
      c.count("resize_shifts");
    }
    if (o->end_time() < 1e15) {
      o->push_back(o->end_time() + std::max(1., std::fabs(o->end_time())), 0);
      unchanged("appending to the result of resize");
    }
  }
  c.nontrivial = p.size() >= 3 && overlaps;
  c.hash = hash_str(c.describe);
}
} // namespace vh
