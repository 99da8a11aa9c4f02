#include "gen.hpp"
// C10: well-formedness of the result at numeric extremes.
namespace vh {
const char* RULE =
    "random formulas over traces with extreme timestamps (Unix time with ms steps, steps of a few ulps, 1e15 offsets, 1e-200..1e200 scales, mixed spacing) and values (nearly parallel, ulp differences, "
    "1e-100..1e100), as well as the ordinary profiles; checked: no exception, non-empty, strictly increasing, exact range, no NaN, finite without constants, within the hull of the atoms' margins, exact slopes; "
    "non-trivial: an extreme profile and a formula with at least 2 operators";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

static double ulps(double x, int n) {
  for (int i = 0; i < n; i++) x = std::nextafter(x, std::numeric_limits<double>::infinity());
  return x;
}

static TraceG extreme(Rng& r) {
  TraceG g;
  const int k = r.range(1, 3), n = r.range(1, 9);
  const int prof = (int)r.below(8);
  double scale = 1;
  auto times = [&](int n) {
    std::vector<double> t;
    double cur = 0;
    switch (prof) {
      case 0: for (int i = 0; i < n; i++) t.push_back(1.6e9 + 1e-3 * i + (r.chance(.2) ? 1e-3 * r.unit() : 0)); break;
      case 1: { double starts[] = {1, 1e9, 1.7e9, 3.5, 1e-3, 1024, 1e15, -1e6};
                cur = starts[r.below(8)];
                for (int i = 0; i < n; i++) { t.push_back(cur); cur = ulps(cur, r.range(1, 4)); } break; }
      case 2: for (int i = 0; i < n; i++) t.push_back(1e15 + .125 * i * r.range(1, 1) + (double)r.below(1)); break;
      case 3: scale = std::pow(10., r.range(-200, 200)); for (int i = 0; i < n; i++) t.push_back(scale * (i + .5 * r.unit())); break;
      case 4: cur = r.chance(.5) ? 0 : -1e12; for (int i = 0; i < n; i++) { t.push_back(cur); cur += std::pow(10., r.range(-12, 12)); } break;
      case 5: cur = 1e9; for (int i = 0; i < n; i++) { t.push_back(cur); cur = r.chance(.5) ? ulps(cur, r.range(1, 3)) : cur + r.range(1, 3); } break;
      case 6: if (r.chance(.5)) { // up to the largest doubles, on one side of 0
                const double from = r.chance(.5) ? 9e307 : 1.2e308, sign = r.chance(.5) ? 1 : -1;
                for (int i = 0; i < n; i++) t.push_back(sign * (from + 5e306 * (i + .5 * r.unit())));
              } else for (int i = 0; i < n; i++) t.push_back(-1e300 + i * 2e299);
              break;
      default: for (int i = 0; i < n; i++) t.push_back(.1 * i + (r.chance(.3) ? 1e-15 * r.range(-3, 3) : 0));
    }
    std::sort(t.begin(), t.end());
    t.erase(std::unique(t.begin(), t.end()), t.end());
    return t;
  };
  auto base_t = times(n);
  auto base_v = gen_values(r, base_t.size(), (int)r.below(11));
  const int vprof = (int)r.below(5);
  double vs = vprof == 3 ? std::pow(10., r.range(-100, 100)) : 1;
  static const char* nm[] = {"x", "y", "z"};
  for (int i = 0; i < k; i++) {
    std::vector<double> t = base_t;
    if (r.chance(.4)) { // other instants in the same range
      auto extra = times(n);
      t.clear();
      t.push_back(base_t.front());
      for (double x : extra) if (x > base_t.front() && x < base_t.back()) t.push_back(x);
      if (base_t.back() > base_t.front()) t.push_back(base_t.back());
    }
    auto v = gen_values(r, t.size(), (int)r.below(11));
    Points p;
    for (size_t j = 0; j < t.size(); j++) {
      double x = v[j];
      if (vprof <= 1 && t == base_t) { // nearly parallel to the first
        x = base_v[j];
        if (vprof == 0) x = ulps(x, r.range(0, 3));
        else x += 1e-13 * r.range(-3, 3);
      }
      p.push_back({t[j], x * vs});
    }
    g.names.push_back(nm[i]);
    g.sig.push_back(p);
  }
  g.kind = "extreme " + std::to_string(prof) + "/" + std::to_string(vprof);
  return g;
}

// Signals whose ranges have only an instant, or very little more, in common.
static TraceG meeting(Rng& r) {
  TraceG g;
  static const char* nm[] = {"x", "y", "z"};
  const int k = r.range(2, 3);
  static const double at[] = {0, 1, 3.5, 1e-3, 1e9, 1.7e9, 1024, -1, -1e6, 1e15, .1, 1e-300};
  const double a = r.chance(.5) ? at[r.below(12)] : r.real(-10, 10), b = ulps(a, r.range(0, 3));
  const double w = std::max(std::fabs(a) * 1e-3, 1e-3) * r.real(.5, 100);
  for (int i = 0; i < k; i++) {
    std::vector<double> t;
    if (i != 1) t.push_back(a); // one starts at a, ...
    if (i != 0) t.push_back(b); // ... another ends at b
    if (r.chance(.3)) { t.push_back(a); }
    if (r.chance(.3)) { t.push_back(b); }
    const int n = r.range(0, 5);
    for (int j = 0; j < n; j++) {
      if (i == 0) t.push_back(b + w * (1 + j + r.unit() * .5)); // ends after
      if (i == 1) t.push_back(a - w * (1 + j + r.unit() * .5)); // starts before
      if (i == 2) t.push_back(j % 2 ? b + w * j : a - w * (j + 1));
    }
    if (i == 2 && r.chance(.8)) { t.push_back(a - w * 9); t.push_back(b + w * 9); }
    std::sort(t.begin(), t.end());
    t.erase(std::unique(t.begin(), t.end()), t.end());
    auto v = gen_values(r, t.size(), (int)r.below(11));
    Points p;
    for (size_t j = 0; j < t.size(); j++) p.push_back({t[j], v[j]});
    g.names.push_back(nm[i]);
    g.sig.push_back(p);
  }
  g.kind = "meeting";
  return g;
}

static R hull(const FP& f, const TraceG& g) {
  if (f->k == CONST) return 0;
  if (f->k == PRED) {
    R m = 0;
    for (size_t i = 0; i < g.names.size(); i++)
      if (g.names[i] == f->name) for (auto p : g.sig[i]) m = std::max(m, std::fabs((R)p.second - (R)f->c));
    return m;
  }
  R m = 0;
  for (auto& a : f->args) m = std::max(m, hull(a, g));
  return m;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  bool ext = r.chance(.75);
  TraceG g;
  if (ext) g = r.chance(.1) ? meeting(r) : extreme(r);
  else {
    TraceOpts to;
    to.many = true;
    to.large = true;
    g = r.chance(.02) ? gen_huge(r) : gen_trace(r, to);
  }
  for (auto& s : g.sig)
    for (size_t i = 0; i + 1 < s.size(); i++)
      if (!(s[i + 1].first > s[i].first) || !(std::fabs((R)s[i + 1].second - s[i].second) / ((R)s[i + 1].first - s[i].first) < 1e290L)) throw Skip{};
  FormulaGen fg{r, g, {}};
  FP f = fg.make(r.range(1, g.samples() > 100 ? 2 : 4));
  if (f->size() > 60) throw Skip{};
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  auto trace = g.build();
  stl::signal::SignalPtr s;
  auto expr = to_expr(f, &r);
  try {
    s = stl::semantics::compute_robustness(expr, trace, c.index % 2 && synchronous(trace));
  } catch (const std::exception& x) {
    c.fail("threw", std::string("evaluating threw: ") + x.what());
  }
  c.count("lib_evaluations");
  if (!s || s->empty()) c.fail("empty", "the robustness has no samples");
  Pwl q = pwl(c, *s, "the robustness");
  if ((double)q.begin() != b || (double)q.end() != e)
    c.fail("range", "covers [" + num((double)q.begin()) + ", " + num((double)q.end()) + "] instead of [" + num(b) + ", " + num(e) + "]" + show(q));
  bool k = f->has_const();
  R h = hull(f, g);
  // With slopes that are not normal doubles, interpolation is off by more than rounding: no hull then.
  if (e > b && h / ((R)e - (R)b) < 1e-280L) h = std::numeric_limits<R>::infinity();
  for (size_t i = 0; i < q.size(); i++) {
    c.count("samples_checked");
    if (std::isinf(q.v[i])) {
      if (!k) c.fail("infinite", "infinite robustness without constants at t=" + num((double)q.t[i]) + show(q));
    } else if (std::fabs(q.v[i]) > h * (1 + 1e-6L) + 1e-300L)
      c.fail("hull", "robustness " + num((double)q.v[i]) + " at t=" + num((double)q.t[i]) + " is outside the largest margin of any atom, " + num((double)h) + show(q));
  }
  // the samples' derivatives are the slopes
  for (auto i = s->begin(); i != s->end(); i++) {
    if (std::isnan(i->derivative)) c.fail("nan-slope", "a derivative is NaN at t=" + num(i->time));
  }
  // as a queryable signal: its ends can be looked up
  if (s->at(s->begin_time()).value != s->front().value || s->at(s->end_time()).value != s->back().value) c.fail("lookup", "the ends of the result");
  // mid-points stay within the hull too
  for (size_t i = 0; i + 1 < q.size(); i++) {
    double m = (double)q.t[i] / 2 + (double)q.t[i + 1] / 2;
    if (!(m > (double)q.t[i] && m < (double)q.t[i + 1])) continue;
    double v = s->at(m).value;
    if (std::isnan(v)) c.fail("nan", "NaN at t=" + num(m));
    if (!std::isinf(v) && std::fabs(v) > h * (1 + 1e-6L) + 1e-300L) c.fail("hull", "value " + num(v) + " at t=" + num(m) + show(q));
  }
  if (ext) c.count(g.kind.substr(0, 9));
  c.nontrivial = ext && f->size() >= 3;
  c.hash = hash_str(str(f), g.hash());
}
} // namespace vh
