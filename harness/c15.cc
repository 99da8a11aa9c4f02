#include "sig.hpp"
// C15: lookups, ranges and per-sample queries against the interpolant.
namespace vh {
const char* RULE =
    "random signals (up to 700 samples, ulp-spaced to 1e100-scaled) looked up at every sample time, its neighbouring doubles, mid-points, random instants and outside; iteration ranges at the same instants; "
    "per-sample interpolation, area and intersection; non-trivial: at least 3 samples";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace sig;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  const double inf = std::numeric_limits<double>::infinity();
  if (r.chance(.02)) { // empty
    Signal s;
    for (double t : {0., 1., -1., inf, -inf, std::nan("")}) {
      if (!refuses([&] { (void)s.at(t); })) c.fail("empty", "an empty signal answered a lookup at " + num(t));
      if (s.begin_at(t) != s.end() || s.end_at(t) != s.begin()) c.fail("empty", "iteration over an empty signal");
    }
    c.count("empty_signals");
    return;
  }
  Points p = gen_points(r, 12, true);
  c.desc("signal:" + show(p));
  SignalPtr s = make(p);
  Pwl f = pwl(p);
  const std::string before = shot(*s);
  std::vector<double> qs;
  size_t stride = p.size() > 60 ? p.size() / 30 : 1;
  for (size_t i = 0; i < p.size(); i += stride) {
    double t = p[i].first;
    qs.push_back(t);
    qs.push_back(std::nextafter(t, inf));
    qs.push_back(std::nextafter(t, -inf));
    if (i + 1 < p.size()) { qs.push_back(t / 2 + p[i + 1].first / 2); qs.push_back(t + (p[i + 1].first - t) * r.unit()); }
  }
  qs.push_back(p.back().first);
  qs.push_back(std::nextafter(p.back().first, -inf));
  qs.push_back(std::nextafter(p.back().first, inf));
  for (double d : {1., 1e10, inf}) { qs.push_back(p.front().first - d * std::max(1., std::fabs(p.front().first))); qs.push_back(p.back().first + d * std::max(1., std::fabs(p.back().first))); }
  r.shuffle(qs); // no order of lookups may matter
  for (double t : qs) {
    if (std::isnan(t)) continue;
    // lookup
    if (t < p.front().first || t > p.back().first) {
      if (!refuses([&] { (void)s->at(t); })) c.fail("outside", "a lookup at " + num(t) + " was answered, outside of [" + num(p.front().first) + ", " + num(p.back().first) + "]");
      c.count("lookups_refused");
    } else {
      Sample x = s->at(t);
      c.count("lookups");
      size_t i = f.seg(t);
      if (x.time != t) c.fail("time", "the sample at " + num(t) + " says time " + num(x.time));
      if (t == p[i].first) {
        if (!same_bits(x.value, p[i].second)) c.fail("value", "at the sample time " + num(t) + " the value is " + num(x.value) + ", not " + num(p[i].second));
      } else {
        R want = f.at(t), scale = std::max(std::fabs((R)p[i].second), std::fabs((R)p[i + 1].second));
        if (!(std::fabs((R)x.value - want) <= 1e-13L * scale + 1e-300L)) c.fail("value", "at " + num(t) + " the value is " + num(x.value) + ", not " + num((double)want));
      }
      R slope = i + 1 < p.size() ? ((R)p[i + 1].second - p[i].second) / ((R)p[i + 1].first - p[i].first) : 0;
      if (!(std::fabs((R)x.derivative - slope) <= 1e-13L * std::fabs(slope) + 1e-300L)) c.fail("slope", "at " + num(t) + " the derivative is " + num(x.derivative) + ", not " + num((double)slope));
    }
    // ranges
    size_t lo = 0, hi = 0;
    while (lo < p.size() && p[lo].first < t) lo++;
    while (hi < p.size() && p[hi].first <= t) hi++;
    if ((size_t)(s->begin_at(t) - s->begin()) != lo) c.fail("begin_at", "iteration from " + num(t) + " starts at sample " + std::to_string(s->begin_at(t) - s->begin()) + ", not " + std::to_string(lo));
    if ((size_t)(s->end_at(t) - s->begin()) != hi) c.fail("end_at", "iteration up to " + num(t) + " ends before sample " + std::to_string(s->end_at(t) - s->begin()) + ", not " + std::to_string(hi));
    c.count("ranges", 2);
  }
  if (!refuses([&] { (void)s->at(std::nan("")); })) c.fail("outside", "a lookup at NaN was answered");
  // per sample
  for (int k = 0; k < 6; k++) {
    size_t i = r.below(p.size());
    R d = i + 1 < p.size() ? ((R)p[i + 1].second - p[i].second) / ((R)p[i + 1].first - p[i].first) : 0;
    R span = std::max((R)1e-300L, (R)p.back().first - p.front().first);
    double t = (double)((R)p[i].first + span * r.real(-1, 2));
    R at = (R)p[i].second + d * ((R)t - p[i].first), scale = std::fabs((R)p[i].second) + std::fabs(d * ((R)t - p[i].first));
    R tol = 1e-13L * scale + 1e-290L;
    double got = s->interpolate(t, i);
    if (scale < 1e300L && std::fabs(d) < 1e290L && !(std::fabs(got - at) <= tol)) c.fail("interpolate", "sample " + std::to_string(i) + " interpolated to " + num(t) + " is " + num(got) + ", not " + num((double)at));
    R len = (R)t - p[i].first;
    R area = len > 0 ? ((R)p[i].second + at) * len / 2 : 0;
    if (scale * std::fabs(len) < 1e290L && std::fabs(d) < 1e290L && !(std::fabs(s->area(t, i) - area) <= 1e-13L * scale * std::fabs(len) + 1e-290L)) c.fail("area", "area from sample " + std::to_string(i) + " to " + num(t) + " is " + num(s->area(t, i)) + ", not " + num((double)area));
    if (s->at_idx(i).interpolate(t) != got || s->at_idx(i).area(t) != s->area(t, i)) c.fail("sample", "the sample's own queries differ from the signal's");
    // where two lines meet: within reach, and well conditioned
    Sample q{p[i].first + r.range(-3, 3), r.real(-5, 5), r.chance(.4) ? (double)r.range(-3, 3) : r.real(-3, 3)};
    if (r.chance(.2)) q = s->at_idx(r.below(p.size()));
    if (r.chance(.2)) q.value = p[i].second;
    if (r.chance(.2)) q.time = p[i].first;
    R dd = (R)q.derivative - d;
    if (std::fabs(d) < 1e6L && std::fabs(p[i].second) < 1e6 && std::fabs(p[i].first) < 1e3 && std::fabs(q.derivative) < 1e6 && std::fabs(q.value) < 1e6 && std::fabs(q.time) < 1e3 && std::fabs(dd) > .01L) {
      R cross = ((R)p[i].second - q.value + (R)q.derivative * q.time - d * p[i].first) / dd;
      double m = s->time_intersect(q, i);
      R allow = 1e-11L * (std::fabs((R)p[i].second) + std::fabs((R)q.value) + (std::fabs(d) + std::fabs((R)q.derivative) + 1) * (std::fabs((R)p[i].first) + std::fabs((R)q.time) + 1 + std::fabs(cross))) / std::fabs(dd);
      if (!(std::fabs(m - cross) <= allow)) c.fail("intersect", "lines of sample " + std::to_string(i) + " and (" + num(q.time) + ", " + num(q.value) + ", slope " + num(q.derivative) + ") meet at " + num((double)cross) + ", not " + num(m));
      if (s->at_idx(i).time_intersect(q) != m) c.fail("sample", "the sample's own intersection differs from the signal's");
      c.count("intersections");
    }
    // comparisons are of values
    Sample a = s->at_idx(i), b = s->at_idx(r.below(p.size()));
    if ((a < b) != (a.value < b.value) || (a > b) != (a.value > b.value) || (a <= b) != (a.value <= b.value) || (a >= b) != (a.value >= b.value)) c.fail("compare", "comparison of samples");
    Sample m = -a;
    if (m.time != a.time || m.value != -a.value || m.derivative != -a.derivative) c.fail("negate", "negation of a sample");
  }
  if (!refuses([&] { (void)s->interpolate(0, p.size()); }) || !refuses([&] { (void)s->area(0, p.size()); }) || !refuses([&] { (void)s->time_intersect(Sample{0, 0, 1}, p.size()); }) || !refuses([&] { (void)s->at_idx(p.size()); }))
    c.fail("index", "an index past the end was accepted");
  if (shot(*s) != before) c.fail("changed", "queries changed the signal");
  c.nontrivial = p.size() >= 3;
  c.hash = hash_bytes(p.data(), p.size() * sizeof p[0]);
}
} // namespace vh
