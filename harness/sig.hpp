// Signals for the monitors of the signal API, with an exact model.
#pragma once
#include "gen.hpp"

namespace sig {
using namespace gen;

inline void bits(std::string& o, double d) { o.append((const char*)&d, sizeof d); }
inline std::string shot(const Signal& s) {
  std::string o;
  for (auto& x : s) { bits(o, x.time); bits(o, x.value); bits(o, x.derivative); }
  return o;
}
inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }

inline std::string show(const Points& p) {
  std::string o;
  size_t k = 0;
  for (auto [t, v] : p) { if (k++ == 40) { o += " ... (" + std::to_string(p.size()) + ")"; break; } o += " (" + num(t) + ", " + num(v) + ")"; }
  return o;
}

// A neighbouring instant: the next double, but not one next to zero, where slopes overflow.
inline double next_to(double t, double dir) {
  if (std::fabs(t) < 1e-6) return t + (dir > t ? 1e-12 : -1e-12);
  return std::nextafter(t, dir);
}

inline Points gen_points(Rng& r, int max_n, bool wild) {
#ifdef _GLIBCXX_DEBUG
  const int most = 1500;
#else
  const int most = r.chance(.04) ? 80000 : 7000;
#endif
  const int n = most > 60000 && r.chance(.005) ? r.range(65530, most) : r.chance(.004) ? r.range(700, most) : r.chance(.04) ? r.range(100, 700) : r.chance(.08) ? 1 : r.range(1, max_n);
  auto v = gen_values(r, (size_t)n, (int)r.below(11));
  std::vector<double> t;
  const double offs[] = {0, 0, -3, 100, -1e6, 1.6e9};
  double cur = offs[r.below(6)];
  int prof = (int)r.below(wild ? 8 : 5);
  double scale = prof == 6 ? std::pow(10., r.range(-100, 100)) : 1;
  for (int i = 0; i < n; i++) {
    t.push_back(cur * scale);
    switch (prof) {
      case 0: cur += 1; break;
      case 1: cur += .25 * r.range(1, 8); break;
      case 2: cur += r.real(.001, 3); break;
      case 3: cur += .1; break;
      case 4: cur += r.chance(.5) ? .015625 : r.range(1, 20); break;
      case 5: for (int k = r.range(1, 3); k > 0; k--) cur = next_to(cur, 1e300); break;
      case 6: cur += r.real(.5, 2); break;
      default: cur += r.chance(.5) ? 1e-3 : 1e3;
    }
  }
  // collinear stretches
  if (r.chance(.3) && n > 4) {
    size_t a = r.below((uint64_t)n - 3), b = a + 2 + r.below((uint64_t)n - a - 2);
    for (size_t i = a + 1; i < b; i++) v[i] = v[a] + (v[b] - v[a]) * ((t[i] - t[a]) / (t[b] - t[a]));
  }
  Points p;
  for (size_t i = 0; i < t.size(); i++)
    if (p.empty() || t[i] > p.back().first) p.push_back({t[i], v[i]});
  return p;
}

inline SignalPtr make(const Points& p) {
  auto s = std::make_shared<Signal>();
  for (auto [t, v] : p) s->push_back(t, v);
  return s;
}

// Exact contents, slopes within rounding.
inline void check_contents(Ctx& c, const Signal& s, const Points& p, const std::string& what) {
  auto bad = [&](const std::string& m) { c.fail("contents", what + ": " + m + "\n  signal:" + show(points_of(s)) + "\n  expected:" + show(p)); };
  if (s.size() != p.size()) bad("has " + std::to_string(s.size()) + " samples instead of " + std::to_string(p.size()));
  if (s.empty() != p.empty()) bad("empty() is wrong");
  size_t i = 0;
  for (auto it = s.begin(); it != s.end(); ++it, ++i) {
    if (!same_bits(it->time, p[i].first)) bad("time of sample " + std::to_string(i));
    if (!same_bits(it->value, p[i].second)) bad("value of sample " + std::to_string(i));
    if (i && !(it->time > std::prev(it)->time)) bad("times do not increase");
    if (i + 1 == p.size()) {
      if (it->derivative != 0) bad("the last derivative is " + num(it->derivative));
    } else {
      R dv = (R)p[i + 1].second - (R)p[i].second, dt = (R)p[i + 1].first - (R)p[i].first;
      if (p[i + 1].second == p[i].second) {
        if (it->derivative != 0) bad("the derivative at " + num(p[i].first) + " is " + num(it->derivative) + " between equal values");
      } else if (std::isfinite(dv) && std::isfinite(dt)) {
        R want = dv / dt;
        if (std::fabs(want) < 1e300L && !(std::fabs((R)it->derivative - want) <= 1e-13L * std::fabs(want) + 1e-306L)) bad("the derivative at " + num(p[i].first) + " is " + num(it->derivative) + ", not the slope " + num((double)want));
      }
    }
  }
  if (i != p.size()) bad("iteration");
  c.count("samples_checked", i);
  if (!p.empty()) {
    if (!same_bits(s.begin_time(), p.front().first) || !same_bits(s.end_time(), p.back().first)) bad("begin_time or end_time");
    if (!same_bits(s.front().value, p.front().second) || !same_bits(s.back().value, p.back().second) || !same_bits(s.back().time, p.back().first)) bad("front or back");
    size_t k = p.size();
    for (auto it = s.rbegin(); it != s.rend(); ++it) if (!k-- || !same_bits(it->time, p[k].first)) bad("reverse iteration");
    if (k) bad("reverse iteration");
    for (size_t j : {(size_t)0, p.size() / 2, p.size() - 1}) if (!same_bits(s.at_idx(j).time, p[j].first) || !same_bits(s.at_idx(j).value, p[j].second)) bad("at_idx");
  }
}

template <typename Fn>
bool refuses(Fn&& fn) {
  try {
    fn();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

} // namespace sig
