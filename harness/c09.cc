#include "gen.hpp"
// C09: representation invariance, between two executions.
namespace vh {
const char* RULE =
    "random trace and formula evaluated again after: inserting samples on the segments, removing collinear samples, renaming, adding unrelated signals, shifting time, scaling values and bounds, "
    "discarding the past; compared at every breakpoint of both; non-trivial: the robustness is not constant";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;

static FP rename(const FP& f, const std::map<std::string, std::string>& m) {
  if (f->k == PRED) { auto g = std::make_shared<F>(*f); g->name = m.at(f->name); return g; }
  std::vector<FP> a;
  for (auto& x : f->args) a.push_back(rename(x, m));
  return with_args(f, a);
}
static FP scale(const FP& f, double k) {
  if (f->k == PRED) { auto g = std::make_shared<F>(*f); g->c *= k; return g; }
  std::vector<FP> a;
  for (auto& x : f->args) a.push_back(scale(x, k));
  return with_args(f, a);
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  TraceOpts to;
  to.vast = true;
  to.many = true;
  const bool huge = r.chance(.005);
  TraceG g = huge ? gen_huge(r) : gen_trace(r, to);
  if (huge) c.count("huge_traces");
  FormulaGen fg{r, g, {}};
  FP f = fg.make(r.range(1, huge ? 2 : 4));
  if (f->size() > 80) throw Skip{};
  c.desc(g.str());
  c.desc("formula: " + str(f));
  double b, e;
  if (!domain(f, g, b, e)) throw Skip{};
  Pwl base = eval_lib(c, to_expr(f, &r), g.build());
  auto tolerance = [&](const TraceG& h, const Pwl& q) {
    Tol t;
    for (auto& s : g.sig) t.add(pwl(s));
    for (auto& s : h.sig) t.add(pwl(s));
    t.add(base);
    t.add(q);
    t.v += 6;
    return t;
  };
  auto n = (R)(4 * f->size());
  const int which = (int)r.below(7);
  TraceG h = g;
  FP f2 = f;
  switch (which) {
    case 0: { // insert samples on the segments
      h.kind = "samples inserted";
      for (auto& s : h.sig) {
        Pwl p = pwl(s);
        Points o;
        for (size_t i = 0; i < s.size(); i++) {
          o.push_back(s[i]);
          if (i + 1 == s.size()) break;
          std::vector<double> ts;
          for (int k = r.range(0, 2); k > 0; k--) ts.push_back(r.chance(.5) ? (s[i].first + s[i + 1].first) / 2 : s[i].first + (s[i + 1].first - s[i].first) * r.unit());
          std::sort(ts.begin(), ts.end());
          for (double t : ts) if (t > o.back().first && t < s[i + 1].first) o.push_back({t, (double)p.at(t)});
        }
        s = o;
      }
      c.count("inserted");
      break;
    }
    case 1: { // remove: from a trace with inserted samples on a dyadic grid, where it is exact
      h.kind = "samples removed";
      for (auto& s : h.sig) {
        Points o;
        for (size_t i = 0; i < s.size(); i++) {
          if (i && i + 1 < s.size()) {
            Pwl seg;
            seg.push(o.back().first, o.back().second);
            seg.push(s[i + 1].first, s[i + 1].second);
            bool exact = (double)seg.at(s[i].first) == s[i].second;
            // dropping s[i] must not move what was dropped before either: only single exact drops after a kept sample
            if (exact && o.back() == s[i - 1]) continue;
          }
          o.push_back(s[i]);
        }
        if (o.size() < s.size()) c.count("signals_with_removed_samples");
        s = o;
      }
      break;
    }
    case 2: { // rename
      h.kind = "renamed";
      // names are only names
      const auto odd = odd_names(r, g.names.size());
      const bool plain = r.chance(.6);
      std::map<std::string, std::string> m;
      std::vector<int> ix;
      for (size_t i = 0; i < g.names.size(); i++) ix.push_back((int)i);
      r.shuffle(ix);
      for (size_t i = 0; i < g.names.size(); i++) m[g.names[i]] = !plain ? odd[i] : std::string(1, (char)('a' + ix[i])) + (r.chance(.3) ? "_renamed_to_something_quite_long" : "");
      for (auto& nm : h.names) nm = m[nm];
      f2 = rename(f, m);
      c.count("renamed");
      break;
    }
    case 3: { // unrelated signals
      h.kind = "unrelated signals added";
      for (int k = r.range(1, 3); k > 0; k--) {
        std::string nm = r.chance(.5) ? "0unrelated" + std::to_string(k) : "zz" + std::to_string(k);
        Points p;
        double t0 = g.begin(), t1 = g.end();
        p.push_back({t0, r.real(-9, 9)});
        for (int i = r.range(0, 5); i > 0; i--) { double t = p.back().first + (t1 - p.back().first) * r.unit(); if (t > p.back().first && t < t1) p.push_back({t, r.real(-9, 9)}); }
        if (t1 > p.back().first && r.chance(.5)) p.push_back({t1, 0});
        h.names.push_back(nm);
        h.sig.push_back(p);
      }
      c.count("unrelated");
      break;
    }
    case 4: { // shift
      double dt = r.chance(.5) ? .25 * r.range(-4000, 4000) : r.real(-1000, 1000);
      h.kind = "shifted by " + num(dt);
      for (auto& s : h.sig) for (auto& p : s) p.first += dt;
      for (auto& s : h.sig) for (size_t i = 1; i < s.size(); i++) if (!(s[i].first > s[i - 1].first)) throw Skip{};
      c.desc(h.str());
      if (!domain(f, h, b, e)) throw Skip{};
      Pwl q = eval_lib(c, to_expr(f2, &r), h.build());
      Tol t = tolerance(h, q);
      // shifted times are rounded
      R eps = t.get(n) + 4 * n * t.s * 2.3e-16L * (t.t + std::fabs(dt));
      if (std::fabs(q.begin() - b) > 0 || std::fabs(q.end() - e) > 0) c.fail("shift", "range of the shifted robustness");
      R round = 2.3e-16L * (t.t + std::fabs(dt));
      auto check = [&](R at) {
        R x = base.at(at), y = q.at(std::min(std::max(at + (R)dt, q.begin()), q.end()));
        c.count("instants_compared");
        if (x != y && !(std::fabs(x - y) <= eps)) c.fail("shift", "shifting by " + num(dt) + " changed the value at t=" + num((double)at) + " from " + num((double)x) + " to " + num((double)y) + "; rounding " + num((double)round));
      };
      for (R x : base.t) check(x);
      for (R x : q.t) check(x - (R)dt);
      c.count("shifted");
      c.nontrivial = base.size() > 2;
      c.hash = hash_str(str(f), g.hash()) ^ 4;
      return;
    }
    case 5: { // scale
      double k = r.chance(.5) ? std::pow(2., r.range(-8, 8)) : r.real(.01, 20);
      h.kind = "scaled by " + num(k);
      for (auto& s : h.sig) for (auto& p : s) p.second *= k;
      f2 = scale(f, k);
      c.desc(h.str());
      c.desc("formula: " + str(f2));
      Pwl q = eval_lib(c, to_expr(f2, &r), h.build()), want = base;
      for (auto& v : want.v) v *= k;
      Tol t = tolerance(h, q);
      t.add(want);
      t.v += 6 * k;
      same_function(c, "scale", q, want, t.get(n) * (R)std::max(k, 1.), "scaled trace and bounds");
      c.count("scaled");
      c.nontrivial = base.size() > 2;
      c.hash = hash_str(str(f), g.hash()) ^ 5;
      return;
    }
    default: { // discard the past
      double t0;
      double cb, ce;
      if (!g.common(cb, ce)) throw Skip{};
      if (r.chance(.5)) { auto& s = g.sig[r.below(g.sig.size())]; t0 = s[r.below(s.size())].first; }
      else t0 = cb + (ce - cb) * r.unit();
      if (t0 < cb || t0 > ce) t0 = cb;
      h.kind = "from " + num(t0);
      for (auto& s : h.sig) {
        Pwl p = pwl(s);
        Points o{{t0, (double)p.at(t0)}};
        for (auto& x : s) if (x.first > t0) o.push_back(x);
        s = o;
      }
      c.desc(h.str());
      if (!domain(f, h, b, e) || t0 > base.end()) throw Skip{};
      Pwl q = eval_lib(c, to_expr(f2, &r), h.build());
      R lo = std::max(base.begin(), (R)t0);
      same_function(c, "future-only", q, restrict(base, lo, base.end()), tolerance(h, q).get(n), "trace without its past");
      c.count("discarded_past");
      c.nontrivial = base.size() > 2;
      c.hash = hash_str(str(f), g.hash()) ^ 6;
      return;
    }
  }
  c.desc(h.str());
  Pwl q = eval_lib(c, to_expr(f2, &r), h.build());
  same_function(c, h.kind.c_str(), q, base, tolerance(h, q).get(n), "same signals, " + h.kind);
  c.nontrivial = base.size() > 2;
  c.hash = hash_str(str(f), g.hash()) ^ (uint64_t)which;
}
} // namespace vh
