// Independent reference semantics on piecewise-linear functions, by brute force.
// Nothing here uses the library.
#pragma once
#include "common.hpp"

namespace ref {

using R = long double;
constexpr R INF = std::numeric_limits<R>::infinity();

// A continuous piecewise-linear function on [t.front(), t.back()].
struct Pwl {
  std::vector<R> t, v;

  R begin() const { return t.front(); }
  R end() const { return t.back(); }
  size_t size() const { return t.size(); }
  void push(R time, R value) { t.push_back(time); v.push_back(value); }

  // Index of the last sample at or before q (q within the domain).
  size_t seg(R q) const {
    size_t i = (size_t)(std::upper_bound(t.begin(), t.end(), q) - t.begin());
    return i ? i - 1 : 0;
  }
  R lerp(size_t i, R q) const {
    if (i + 1 >= t.size() || q <= t[i]) return v[i];
    if (q >= t[i + 1]) return v[i + 1];
    if (v[i] == v[i + 1]) return v[i];
    return v[i] + (v[i + 1] - v[i]) * ((q - t[i]) / (t[i + 1] - t[i]));
  }
  // Value at q; clamps outside the domain.
  R at(R q) const {
    if (q <= t.front()) return v.front();
    if (q >= t.back()) return v.back();
    return lerp(seg(q), q);
  }
  bool finite() const {
    for (R x : v) if (!std::isfinite(x)) return false;
    return true;
  }
};

// ---- pointwise brute-force semantics at one instant -------------------------------

// sup/inf of x over [lo, hi], x holding its last value after its end.
inline R opt_over(const Pwl& x, R lo, R hi, bool max) {
  auto better = [max](R a, R b) { return max ? std::max(a, b) : std::min(a, b); };
  R best = better(x.at(lo), x.at(hi));
  size_t i = (size_t)(std::lower_bound(x.t.begin(), x.t.end(), lo) - x.t.begin());
  for (; i < x.size() && x.t[i] <= hi; i++) best = better(best, x.v[i]);
  return best;
}

// sup_{t' >= q} min(y(t'), inf_{[q,t')} x), on the common domain of x and y.
inline R until_at(const Pwl& x, const Pwl& y, R q) {
  const R end = std::min(x.end(), y.end());
  R best = y.at(q);
  R inf_x = INF;
  std::vector<R> cuts{q};
  for (R s : x.t) if (s > q && s < end) cuts.push_back(s);
  for (R s : y.t) if (s > q && s < end) cuts.push_back(s);
  if (end > q) cuts.push_back(end);
  std::sort(cuts.begin(), cuts.end());
  for (size_t k = 0; k + 1 < cuts.size(); k++) {
    const R s = cuts[k], e = cuts[k + 1];
    if (!(e > s)) continue;
    const R xs = x.at(s), xe = x.at(e), ys = y.at(s), ye = y.at(e);
    auto X = [&](R t) { return xs == xe ? xs : xs + (xe - xs) * ((t - s) / (e - s)); };
    auto Y = [&](R t) { return ys == ye ? ys : ys + (ye - ys) * ((t - s) / (e - s)); };
    auto g = [&](R t) { return std::min(inf_x, std::min(xs, X(t))); };
    std::vector<R> cand{s, e};
    auto cross = [&](R a0, R a1, R b0, R b1) { // where a meets b within [s, e]
      R d0 = a0 - b0, d1 = a1 - b1;
      if (!std::isfinite(d0) || !std::isfinite(d1) || d0 == d1) return;
      R f = d0 / (d0 - d1);
      if (f > 0 && f < 1) cand.push_back(s + f * (e - s));
    };
    cross(ys, ye, xs, xe);
    cross(ys, ye, xs, xs);
    if (std::isfinite(inf_x)) { cross(ys, ye, inf_x, inf_x); cross(xs, xe, inf_x, inf_x); }
    for (R c : cand) best = std::max(best, std::min(Y(c), g(c)));
    inf_x = std::min(inf_x, std::min(xs, xe));
  }
  return best;
}

// ---- the same as functions --------------------------------------------------------

struct TooBig {};
inline size_t& size_limit() { static size_t n = 6000; return n; }

inline std::vector<R> sorted_unique(std::vector<R> v) {
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (v.size() > size_limit()) throw TooBig{};
  return v;
}

// Adds to `out` the crossings strictly inside (s, e) of all pairs of lines (value at s, value at e).
inline void crossings(R s, R e, const std::vector<std::pair<R, R>>& lines, std::vector<R>& out) {
  for (size_t i = 0; i < lines.size(); i++)
    for (size_t j = i + 1; j < lines.size(); j++) {
      R d0 = lines[i].first - lines[j].first, d1 = lines[i].second - lines[j].second;
      if (!std::isfinite(d0) || !std::isfinite(d1) || d0 == d1) continue;
      R f = d0 / (d0 - d1);
      if (f > 0 && f < 1) {
        R c = s + f * (e - s);
        if (c > s && c < e) out.push_back(c);
      }
    }
}

inline Pwl negate(const Pwl& x) {
  Pwl r = x;
  for (auto& a : r.v) a = -a;
  return r;
}

inline Pwl combine(const std::vector<Pwl>& xs, bool max) {
  R b = xs[0].begin(), e = xs[0].end();
  for (auto& x : xs) { b = std::max(b, x.begin()); e = std::min(e, x.end()); }
  if (b > e) throw std::logic_error("ref::combine: disjoint");
  std::vector<R> ts{b, e};
  for (auto& x : xs) for (R t : x.t) if (t > b && t < e) ts.push_back(t);
  ts = sorted_unique(ts);
  std::vector<R> extra;
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    std::vector<std::pair<R, R>> lines;
    for (auto& x : xs) lines.push_back({x.at(ts[i]), x.at(ts[i + 1])});
    crossings(ts[i], ts[i + 1], lines, extra);
  }
  ts.insert(ts.end(), extra.begin(), extra.end());
  ts = sorted_unique(ts);
  Pwl r;
  for (R t : ts) {
    R best = xs[0].at(t);
    for (auto& x : xs) best = max ? std::max(best, x.at(t)) : std::min(best, x.at(t));
    r.push(t, best);
  }
  return r;
}

// [t+a, t+b] with b possibly infinite; a = 0, b = INF is the unbounded operator.
inline Pwl window(const Pwl& x, R a, R b, bool max) {
  std::vector<R> ts{x.begin(), x.end()};
  for (R s : x.t)
    for (R off : {R(0), a, b}) {
      R t = s - off;
      if (std::isfinite(t) && t > x.begin() && t < x.end()) ts.push_back(t);
    }
  ts = sorted_unique(ts);
  std::vector<R> extra;
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    const R s = ts[i], e = ts[i + 1], mid = (s + e) / 2;
    std::vector<std::pair<R, R>> lines{{x.at(s + a), x.at(e + a)}, {x.at(s + b), x.at(e + b)}};
    bool any = false;
    R m = 0;
    size_t k = (size_t)(std::lower_bound(x.t.begin(), x.t.end(), mid + a) - x.t.begin());
    for (; k < x.size() && x.t[k] <= mid + b; k++) {
      m = any ? (max ? std::max(m, x.v[k]) : std::min(m, x.v[k])) : x.v[k];
      any = true;
    }
    if (any) lines.push_back({m, m});
    crossings(s, e, lines, extra);
  }
  ts.insert(ts.end(), extra.begin(), extra.end());
  ts = sorted_unique(ts);
  Pwl r;
  for (R t : ts) r.push(t, opt_over(x, t + a, t + b, max));
  return r;
}

inline Pwl until(const Pwl& x, const Pwl& y) {
  const R b = std::max(x.begin(), y.begin()), e = std::min(x.end(), y.end());
  if (b > e) throw std::logic_error("ref::until: disjoint");
  std::vector<R> ts{b, e};
  for (auto* p : {&x, &y}) for (R t : p->t) if (t > b && t < e) ts.push_back(t);
  ts = sorted_unique(ts);
  std::vector<R> extra;
  for (size_t i = 0; i + 1 < ts.size(); i++)
    crossings(ts[i], ts[i + 1], {{x.at(ts[i]), x.at(ts[i + 1])}, {y.at(ts[i]), y.at(ts[i + 1])}}, extra);
  ts.insert(ts.end(), extra.begin(), extra.end());
  ts = sorted_unique(ts);
  extra.clear();
  for (size_t i = 0; i + 1 < ts.size(); i++) {
    const R s = ts[i], g = ts[i + 1];
    const R z = until_at(x, y, g);
    const R lv[3] = {x.at(g), y.at(g), z};
    std::vector<std::pair<R, R>> lines{{x.at(s), x.at(g)}, {y.at(s), y.at(g)}};
    for (R l : lv) lines.push_back({l, l});
    crossings(s, g, lines, extra);
  }
  ts.insert(ts.end(), extra.begin(), extra.end());
  ts = sorted_unique(ts);
  Pwl r;
  for (R t : ts) r.push(t, until_at(x, y, t));
  return r;
}

// ---- Boolean satisfaction, independent of the quantitative semantics -----------------
// A truth set is a sorted list of disjoint intervals; membership of single boundary
// instants is not significant (robustness is 0 there).

struct Sat {
  R b, e; // domain
  std::vector<std::pair<R, R>> in;

  void norm() {
    std::sort(in.begin(), in.end());
    std::vector<std::pair<R, R>> o;
    for (auto [l, h] : in) {
      l = std::max(l, b); h = std::min(h, e);
      if (l > h) continue;
      if (!o.empty() && l <= o.back().second) o.back().second = std::max(o.back().second, h);
      else o.push_back({l, h});
    }
    in = o;
  }
  bool has(R t) const {
    for (auto [l, h] : in) if (l <= t && t <= h) return true;
    return false;
  }
  bool at_end() const { return !in.empty() && in.back().second >= e; }
};

inline Sat sat_not(const Sat& s) {
  Sat r{s.b, s.e, {}};
  R cur = s.b;
  for (auto [l, h] : s.in) {
    if (l > cur) r.in.push_back({cur, l});
    cur = h;
  }
  if (cur < s.e) r.in.push_back({cur, s.e});
  // single-instant domain
  if (s.b == s.e && s.in.empty()) r.in.push_back({s.b, s.e});
  return r;
}
inline Sat sat_restrict(Sat s, R b, R e) { s.b = b; s.e = e; s.norm(); return s; }
inline Sat sat_or(const Sat& x, const Sat& y) {
  R b = std::max(x.b, y.b), e = std::min(x.e, y.e);
  Sat r{b, e, x.in};
  r.in.insert(r.in.end(), y.in.begin(), y.in.end());
  r.norm();
  return r;
}
inline Sat sat_and(const Sat& x, const Sat& y) {
  R b = std::max(x.b, y.b), e = std::min(x.e, y.e);
  return sat_not(sat_or(sat_not(sat_restrict(x, b, e)), sat_not(sat_restrict(y, b, e))));
}
// exists t' in [t+a, t+b] with t' in s (s holding its last truth value after its end)
inline Sat sat_ev(const Sat& s, R a, R b) {
  Sat r{s.b, s.e, {}};
  for (auto [l, h] : s.in) {
    R hh = (h >= s.e) ? INF : h;
    r.in.push_back({l - b, hh == INF ? INF : hh - a});
  }
  r.norm();
  return r;
}
inline Sat sat_until(const Sat& x, const Sat& y) {
  R b = std::max(x.b, y.b), e = std::min(x.e, y.e);
  Sat X = sat_restrict(x, b, e), Y = sat_restrict(y, b, e);
  Sat r{b, e, Y.in};
  // t satisfies if t in an X-interval [l,h] and Y meets [t, h]
  for (auto [l, h] : X.in)
    for (auto [yl, yh] : Y.in)
      if (yh >= l && yl <= h) r.in.push_back({l, std::min(h, yh)});
  r.norm();
  return r;
}

} // namespace ref
