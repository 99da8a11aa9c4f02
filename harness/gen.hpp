// Generators of traces and formulas, conversion to and from the library, comparison of functions.
#pragma once
#include "common.hpp"
#include "ref.hpp"
#include <signal_tl/ast.hpp>
#include <signal_tl/exception.hpp>
#include <signal_tl/robustness.hpp>
#include <signal_tl/signal.hpp>

namespace gen {
using namespace vh;
namespace stl = signal_tl;
using stl::signal::Sample;
using stl::signal::Signal;
using stl::signal::SignalPtr;
using ref::Pwl;
using ref::R;

using Points = std::vector<std::pair<double, double>>; // (time, value)

struct TraceG {
  std::vector<std::string> names;
  std::vector<Points> sig;
  std::string kind;
  double ts = 1, vs = 1; // scale of times and of values

  stl::signal::Trace build() const {
    stl::signal::Trace t;
    for (size_t i = 0; i < names.size(); i++) {
      auto s = std::make_shared<Signal>();
      for (auto [a, b] : sig[i]) s->push_back(a, b);
      t[names[i]] = s;
    }
    return t;
  }
  double begin() const { double b = sig[0].front().first; for (auto& s : sig) b = std::min(b, s.front().first); return b; }
  double end() const { double b = sig[0].back().first; for (auto& s : sig) b = std::max(b, s.back().first); return b; }
  double max_time() const { return std::max(std::fabs(begin()), std::fabs(end())); }
  double max_value() const { double m = 0; for (auto& s : sig) for (auto p : s) m = std::max(m, std::fabs(p.second)); return m; }
  // Common range of all signals; false if there is none.
  bool common(double& b, double& e) const {
    b = sig[0].front().first; e = sig[0].back().first;
    for (auto& s : sig) { b = std::max(b, s.front().first); e = std::min(e, s.back().first); }
    return b <= e;
  }
  size_t samples() const { size_t n = 0; for (auto& s : sig) n += s.size(); return n; }
  std::string str() const {
    std::string o = "trace (" + kind + "):";
    for (size_t i = 0; i < names.size(); i++) {
      o += "\n  " + names[i] + " =";
      size_t k = 0;
      for (auto [t, v] : sig[i]) {
        if (k++ == 60) { o += " ... (" + std::to_string(sig[i].size()) + " samples)"; break; }
        o += " (" + num(t) + ", " + num(v) + ")";
      }
    }
    return o;
  }
  uint64_t hash() const {
    uint64_t h = 7;
    for (size_t i = 0; i < names.size(); i++) {
      h = hash_str(names[i], h);
      h = hash_bytes(sig[i].data(), sig[i].size() * sizeof(sig[i][0]), h);
    }
    return h;
  }
};

inline Points points_of(const Signal& s) {
  Points p;
  for (auto& x : s) p.push_back({x.time, x.value});
  return p;
}

inline Pwl pwl(const Points& p) {
  Pwl r;
  for (auto [t, v] : p) r.push(t, v);
  return r;
}

// A library signal as a function; refuses what is not one.
inline Pwl pwl(Ctx& c, const Signal& s, const char* what) {
  Pwl r;
  if (s.empty()) c.fail("not-a-function", std::string(what) + " is empty");
  for (auto& x : s) {
    if (std::isnan(x.time) || std::isnan(x.value))
      c.fail("not-a-function", std::string(what) + " contains NaN: (" + num(x.time) + ", " + num(x.value) + ")");
    if (!r.t.empty() && !(x.time > r.t.back()))
      c.fail("not-a-function", std::string(what) + ": sample times do not increase at " + num(x.time));
    r.push(x.time, x.value);
  }
  return r;
}

inline std::string show(const Pwl& p) {
  std::string o;
  for (size_t i = 0; i < p.size() && i < 80; i++) o += " (" + num((double)p.t[i]) + ", " + num((double)p.v[i]) + ")";
  if (p.size() > 80) o += " ...";
  return o;
}

inline Pwl restrict(const Pwl& p, R b, R e) {
  Pwl q;
  q.push(b, p.at(b));
  for (size_t i = 0; i < p.size(); i++) if (p.t[i] > b && p.t[i] < e) q.push(p.t[i], p.v[i]);
  if (e > b) q.push(e, p.at(e));
  return q;
}

inline R max_slope(const Pwl& p) {
  R m = 0;
  for (size_t i = 0; i + 1 < p.size(); i++)
    if (std::isfinite((double)p.v[i]) && std::isfinite((double)p.v[i + 1]))
      m = std::max(m, std::fabs((p.v[i + 1] - p.v[i]) / (p.t[i + 1] - p.t[i])));
  return m;
}
inline R max_abs_value(const Pwl& p) {
  R m = 0;
  for (R v : p.v) if (std::isfinite((double)v)) m = std::max(m, std::fabs(v));
  return m;
}
inline R max_abs_time(const Pwl& p) { return std::max(std::fabs(p.begin()), std::fabs(p.end())); }

// Rounding allowance for comparing functions computed from `ps`.
struct Tol {
  R v = 0, s = 0, t = 0;
  R extra_t = 0;
  void add(const Pwl& p) {
    v = std::max(v, max_abs_value(p));
    s = std::max(s, max_slope(p));
    t = std::max(t, max_abs_time(p));
  }
  R get(R factor = 1) const { return factor * (1e-10L * (1e-3L + v) + 64 * 2.3e-16L * s * (t + extra_t)); }
  // Whether the allowance still separates different values.
  bool tight(R factor = 1) const { return get(factor) <= 1e-4L * (1e-3L + v); }
};

// ---- traces ---------------------------------------------------------------------------

struct TraceOpts {
  int min_signals = 1, max_signals = 3;
  int max_samples = 12;
  bool ranges     = true; // different time ranges
  bool extreme    = false; // spacing near the resolution, huge offsets
  bool singles    = true;
  bool large      = false; // sometimes many samples
  bool many       = false; // sometimes dozens of signals
  bool scaled     = true;  // sometimes other units of time (nanoseconds to days) and of values
  bool vast       = false; // sometimes units of time near the ends of the range of doubles
};

inline std::vector<double> gen_values(Rng& r, size_t n, int profile) {
  std::vector<double> v(n);
  switch (profile) {
    case 0: for (auto& x : v) x = r.range(-3, 3); break;
    case 1: for (auto& x : v) x = r.range(-8, 8) * 0.5; break;
    case 2: for (auto& x : v) x = r.real(-10, 10); break;
    case 3: { // plateaus
      double cur = r.range(-4, 4);
      for (auto& x : v) { if (r.chance(.35)) cur = r.range(-4, 4); x = cur; }
      break;
    }
    case 4: { // ramps
      double cur = r.real(-3, 3), d = r.range(-2, 2);
      for (auto& x : v) { if (r.chance(.2)) d = r.real(-2, 2); x = cur; cur += d; }
      break;
    }
    case 5: { // spikes
      double base = r.range(-2, 2);
      for (auto& x : v) x = r.chance(.2) ? base + r.range(-20, 20) : base;
      break;
    }
    case 6: { // zigzag
      double a = r.range(1, 5), g = r.real(0, .5);
      for (size_t i = 0; i < n; i++) v[i] = (i % 2 ? a : -a) + g * (double)i;
      break;
    }
    case 7: { // constant
      double c = r.range(-5, 5);
      for (auto& x : v) x = c;
      break;
    }
    case 8: { // monotone
      double cur = r.range(-5, 5), sgn = r.chance(.5) ? 1 : -1;
      for (auto& x : v) { x = cur; cur += sgn * r.range(0, 3); }
      break;
    }
    case 9: { // mixed magnitudes
      for (auto& x : v) x = (r.chance(.5) ? 1 : -1) * std::pow(10., r.range(-6, 6)) * r.range(1, 9);
      break;
    }
    default: { // sine-like
      double w = r.real(.2, 2), p = r.real(0, 6);
      for (size_t i = 0; i < n; i++) v[i] = 3 * std::sin(w * (double)i + p);
    }
  }
  return v;
}

inline std::vector<double> subset_times(Rng& r, double t0, double step, int slots, int n) {
  // n distinct slots out of [0, slots]
  std::set<int> s;
  n = std::min(n, slots + 1);
  while ((int)s.size() < n) s.insert(r.range(0, slots));
  std::vector<double> o;
  for (int k : s) o.push_back(t0 + step * k);
  return o;
}

inline std::string gen_name(Rng& r, int i) {
  static const char* base[] = {"x", "y", "z", "w"};
  switch (r.below(6)) {
    case 0: return std::string(base[i & 3]) + "1";
    case 1: return std::string("sig_") + std::string(1 + r.below(30), 'a') + base[i & 3];
    case 2: return std::string(i & 3, 'x') + "x";
    default: return base[i & 3];
  }
}

// A name that could be mistaken for `n`.
inline std::string kin(Rng& r, const std::string& n) {
  static const char sep[] = "._/:-#@ ~'[$";
  auto one = [&] { return std::string(1, sep[r.below(sizeof sep - 1)]); };
  auto part = [&] { return std::string(1, (char)('a' + r.below(26))); };
  std::string o = n;
  switch (r.below(14)) {
    case 0: return n + one();
    case 1: return one() + n;
    case 2: case 3: return part() + one() + n;
    case 4: case 5: return n + one() + part();
    case 6: for (auto& c : o) c = (char)((c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') ? c + 32 : c); return o;
    case 7: return n + std::to_string(r.range(0, 12));
    case 8: return n + n;
    case 9: return n.empty() ? "e" : n.substr(1);
    case 10: return n.empty() ? "e" : n.substr(0, n.size() - 1);
    case 11: return n + std::string(1, '\0') + part();
    case 12: if (n.empty()) return "0"; o[r.below(o.size())] ^= (char)(1 << r.below(8)); return o;
    default: return std::string(r.range(1, 300), 'l') + n;
  }
}
// `n` names, some of them like one another.
inline std::vector<std::string> odd_names(Rng& r, size_t n) {
  static const char* odd[] = {"a", "aa", "aaa", "a ", "", "true", "A", "a.b", "x\xc3\xa9", "1", "G", "a_b", "_a", "__", "_", "time", "0", " ", "\xc3\xa9", "~", "_begin", "$", "-", "x", "x1"};
  std::vector<std::string> o;
  while (o.size() < n) {
    std::string s = !o.empty() && r.chance(.6) ? kin(r, o[r.below(o.size())]) : odd[r.below(sizeof odd / sizeof *odd)];
    if (std::find(o.begin(), o.end(), s) == o.end()) o.push_back(s);
  }
  r.shuffle(o);
  return o;
}

inline TraceG gen_trace_units(Rng& r, const TraceOpts& o) {
  TraceG g;
  int k = r.range(o.min_signals, o.max_signals);
  if (o.many && r.chance(.008)) k = r.range(5, 40);
  std::set<std::string> used;
  for (int i = 0; i < k; i++) {
    std::string n = gen_name(r, i);
    while (used.count(n)) n += "_";
    used.insert(n);
    g.names.push_back(n);
  }
  int prof = (int)r.below(12);
  auto count = [&] {
    if (o.large && r.chance(.04)) return r.range(60, 400);
    if (r.chance(.1)) return r.range(12, std::max(12, o.max_samples * 2));
    if (o.singles && r.chance(.05)) return 1;
    return r.range(2, o.max_samples);
  };
  const double off_choices[] = {0, 0, 0, -7, 1e3, -1e3, 1e6, 1e9};
  double off = off_choices[r.below(8)];
  switch (prof) {
    case 0: case 1: { // shared grid
      g.kind = "shared grid";
      double step = prof ? 0.5 : 1;
      int n = count();
      for (int i = 0; i < k; i++) {
        Points p;
        auto v = gen_values(r, (size_t)n, (int)r.below(11));
        for (int j = 0; j < n; j++) p.push_back({off + step * j, v[(size_t)j]});
        g.sig.push_back(p);
      }
      break;
    }
    case 2: { // i * 0.1
      g.kind = "steps of 0.1";
      for (int i = 0; i < k; i++) {
        int n = std::max(2, count());
        Points p;
        auto v = gen_values(r, (size_t)n, (int)r.below(11));
        double step = r.chance(.7) ? 0.1 : 0.3;
        for (int j = 0; j < n; j++) p.push_back({step * j, v[(size_t)j]});
        g.sig.push_back(p);
      }
      break;
    }
    case 3: case 4: case 5: case 6: { // independent dyadic times, maybe the same range
      bool same = prof < 5 || !o.ranges;
      g.kind = same ? "independent times, same range" : "independent times and ranges";
      double step = r.chance(.5) ? 0.25 : 1;
      int slots = r.range(2, 40);
      for (int i = 0; i < k; i++) {
        int n = std::max(2, std::min(count(), slots));
        auto t = subset_times(r, off, step, slots, n);
        if (same) { t.front() = off; t.back() = off + step * slots; }
        else if (r.chance(.5)) for (auto& x : t) x += step * r.range(-2, 2);
        if (!same) {
          // keep the ranges overlapping: make sure the middle is inside
          double mid = off + step * (slots / 2);
          double sh = 0;
          if (t.front() > mid) sh = mid - t.front();
          if (t.back() < mid) sh = mid - t.back();
          for (auto& x : t) x += sh;
          std::sort(t.begin(), t.end());
          t.erase(std::unique(t.begin(), t.end()), t.end());
        }
        auto v = gen_values(r, t.size(), (int)r.below(11));
        Points p;
        for (size_t j = 0; j < t.size(); j++) p.push_back({t[j], v[j]});
        g.sig.push_back(p);
      }
      break;
    }
    case 7: case 8: { // irregular reals
      g.kind = "irregular real times";
      double len = r.real(1, 50);
      for (int i = 0; i < k; i++) {
        int n = std::max(2, count());
        std::vector<double> t{0, len};
        if (prof == 8 && o.ranges) t = {r.real(0, len * .4), r.real(len * .6, len)};
        while ((int)t.size() < n) t.push_back(r.real(t[0], t[1]));
        for (auto& x : t) x += off;
        std::sort(t.begin(), t.end());
        t.erase(std::unique(t.begin(), t.end()), t.end());
        auto v = gen_values(r, t.size(), (int)r.below(11));
        Points p;
        for (size_t j = 0; j < t.size(); j++) p.push_back({t[j], v[j]});
        g.sig.push_back(p);
      }
      break;
    }
    case 9: { // ranges meeting in a single instant
      g.kind = "ranges meeting in one instant";
      double m = off + r.range(2, 10);
      for (int i = 0; i < k; i++) {
        int n = std::max(2, std::min(count(), 8));
        Points p;
        auto v = gen_values(r, (size_t)n, (int)r.below(11));
        bool left = o.ranges && k > 1 ? (i % 2 == 0) : false;
        for (int j = 0; j < n; j++) p.push_back({left ? m - (n - 1 - j) * .5 : m + j * .5, v[(size_t)j]});
        g.sig.push_back(p);
      }
      break;
    }
    case 10: { // some signals have a single sample
      g.kind = "single-sample signals";
      double m = off + r.range(0, 4);
      bool all = r.chance(.5) || !o.ranges;
      for (int i = 0; i < k; i++) {
        Points p;
        if (all || (i == 0)) p.push_back({m, (double)r.range(-4, 4)});
        else {
          int n = r.range(1, 5);
          auto v = gen_values(r, (size_t)n, (int)r.below(11));
          int at = (int)r.below((uint64_t)n);
          for (int j = 0; j < n; j++) p.push_back({m + (j - at) * .75, v[(size_t)j]});
        }
        g.sig.push_back(p);
      }
      if (!o.singles) return gen_trace_units(r, o);
      break;
    }
    default: { // bursts: dense and sparse stretches
      g.kind = "bursts";
      double len = 0;
      for (int i = 0; i < k; i++) {
        int n = std::max(2, count());
        double t = off;
        auto v = gen_values(r, (size_t)n, (int)r.below(11));
        Points p;
        for (int j = 0; j < n; j++) {
          p.push_back({t, v[(size_t)j]});
          t += r.chance(.5) ? 0.015625 * r.range(1, 4) : r.range(1, 12);
        }
        len = std::max(len, p.back().first);
        g.sig.push_back(p);
      }
      if (!o.ranges)
        for (auto& p : g.sig) if (p.back().first < len) p.push_back({len, p.back().second});
    }
  }
  return g;
}

// Times and values in other units; the same times stay the same.
inline TraceG gen_trace(Rng& r, const TraceOpts& o) {
  TraceG g = gen_trace_units(r, o);
  if (o.vast && r.chance(.02)) { // a power of 2, so that only overflow and underflow could matter
    double hi = 0, lo = 0;
    for (auto& p : g.sig)
      for (auto& s : p) { hi = std::max(hi, s.first); lo = std::min(lo, s.first); }
    const double m = std::max(hi, -lo);
    static const int ex[] = {-900, -500, 500, 900};
    int e = ex[r.below(4)];
    if (r.chance(.5) && m > 0) e = (lo < 0 && hi > 0 ? 1022 : 1023) - std::ilogb(m);
    auto keep = g.sig;
    for (auto& p : g.sig) {
      for (auto& s : p) s.first = std::ldexp(s.first, e);
      for (size_t i = 1; i < p.size(); i++) {
        // slopes are finite and times remain different
        const R dv = std::fabs((R)p[i].second - p[i - 1].second), dt = (R)p[i].first - p[i - 1].first;
        if (!(dt > 0 && dv / dt < 1e250L)) { g.sig = keep; return g; }
      }
    }
    g.ts = std::ldexp(1., std::min(e, 1023));
    g.kind += ", time unit 2^" + std::to_string(e);
    return g;
  }
  if (!o.scaled || !r.chance(.3)) return g;
  static const double times[] = {1, 1, 1e-9, 1e-6, 1e-3, 1. / 1024, 1. / 3, 60, 1e3, 86400, 1e6, 1e9, 4294967296., 1e12};
  static const double values[] = {1, 1, 1e-6, 1e-3, 1. / 3, 1e3, 1e6, 1e9};
  g.ts = times[r.below(14)];
  g.vs = values[r.below(8)];
  auto keep = g.sig;
  for (auto& p : g.sig) {
    for (auto& [t, v] : p) { t *= g.ts; v *= g.vs; }
    for (size_t i = 1; i < p.size(); i++)
      if (!(p[i].first > p[i - 1].first)) { g.sig = keep; g.ts = g.vs = 1; return g; }
  }
  if (g.ts != 1) g.kind += ", time unit " + num(g.ts);
  if (g.vs != 1) g.kind += ", value unit " + num(g.vs);
  return g;
}

// Thousands of samples, of which some change the operators' results and many do not.
inline TraceG gen_huge(Rng& r) {
  TraceG g;
  g.kind = "huge";
  int k = r.range(1, 2);
  double len = 0;
  for (int i = 0; i < k; i++) {
    g.names.push_back(i ? "y" : "x");
#ifdef _GLIBCXX_DEBUG // whose checks make every binary search linear
    int n = r.chance(.2) ? (1 << r.range(9, 10)) + r.range(-1, 1) : r.range(400, 1500);
#else
    int n = r.chance(.2) ? (1 << r.range(9, 13)) + r.range(-1, 1) : r.range(500, 9000);
    if (i ? !g.sig.empty() && g.sig[0].size() > 60000 : r.chance(.04)) n = r.chance(.3) ? 65536 + r.range(-2, 2) : r.range(65536, 80000); // beyond 16 bits
#endif
    auto v = gen_values(r, (size_t)n, (int)r.below(11));
    if (r.chance(.3)) { // envelopes, so that the optimum changes all along
      double a = r.chance(.5) ? 1 : -1;
      for (int j = 0; j < n; j++) v[(size_t)j] += a * 8. * (n - j) / n;
    }
    if (r.chance(.3)) { // level stretches
      size_t hold = (size_t)r.range(2, 5);
      for (size_t j = 1; j < v.size(); j++) if (r.below(hold)) v[j] = v[j - 1];
    }
    double step = r.chance(.5) ? 1 : .25, t = i ? -r.range(0, 3) : 0;
    bool even = r.chance(.5);
    Points p;
    for (int j = 0; j < n; j++) {
      p.push_back({t, v[(size_t)j]});
      t += even ? step : step * r.range(1, 4);
    }
    len = std::max(len, t);
    g.sig.push_back(p);
  }
  return g;
}

// ---- formulas --------------------------------------------------------------------------

enum Kind { CONST, PRED, NOT, AND, OR, ALW, EV, UNTIL, IMPLIES, IFF, XOR };

struct F;
using FP = std::shared_ptr<const F>;
struct F {
  Kind k = CONST;
  bool b = false;
  std::string name;
  stl::ast::ComparisonOp op = stl::ast::ComparisonOp::GE;
  double c = 0;
  std::vector<FP> args;
  int ik = 0; // interval: 0 none, 1 integers, 2 reals, 3 integer and real, 4 real and integer
  unsigned long long ia = 0, ib = 0;
  double da = 0, db = 0;

  double lo() const { return ik == 1 || ik == 3 ? (double)ia : ik ? da : 0; }
  double hi() const { return ik == 1 || ik == 4 ? (double)ib : ik ? db : std::numeric_limits<double>::infinity(); }
  size_t size() const { size_t n = 1; for (auto& a : args) n += a->size(); return n; }
  size_t depth() const { size_t n = 0; for (auto& a : args) n = std::max(n, a->depth()); return n + 1; }
  bool has_const() const { if (k == CONST) return true; for (auto& a : args) if (a->has_const()) return true; return false; }
};

inline const char* op_str(stl::ast::ComparisonOp o) {
  using O = stl::ast::ComparisonOp;
  switch (o) { case O::GT: return ">"; case O::GE: return ">="; case O::LT: return "<"; default: return "<="; }
}

inline std::string str(const FP& f) {
  static const char* names[] = {"", "", "not", "and", "or", "G", "F", "U", "implies", "iff", "xor"};
  if (f->k == CONST) return f->b ? "true" : "false";
  if (f->k == PRED) return std::string("(") + op_str(f->op) + " " + f->name + " " + num(f->c) + ")";
  std::string o = std::string("(") + names[f->k];
  if (f->ik == 1) o += "[" + std::to_string(f->ia) + "u," + std::to_string(f->ib) + "u]";
  if (f->ik == 2) o += "[" + num(f->da) + "," + num(f->db) + "]";
  if (f->ik == 3) o += "[" + std::to_string(f->ia) + "u," + num(f->db) + "]";
  if (f->ik == 4) o += "[" + num(f->da) + "," + std::to_string(f->ib) + "u]";
  for (auto& a : f->args) o += " " + str(a);
  return o + ")";
}

inline FP mk_const(bool b) { auto f = std::make_shared<F>(); f->k = CONST; f->b = b; return f; }
inline FP mk_pred(std::string n, stl::ast::ComparisonOp op, double c) {
  auto f = std::make_shared<F>(); f->k = PRED; f->name = std::move(n); f->op = op; f->c = c; return f;
}
inline FP mk(Kind k, std::vector<FP> a) { auto f = std::make_shared<F>(); f->k = k; f->args = std::move(a); return f; }
inline FP mk_i(Kind k, std::vector<FP> a, int ik, unsigned long long ia, unsigned long long ib, double da, double db) {
  auto f = std::make_shared<F>();
  f->k = k; f->args = std::move(a); f->ik = ik; f->ia = ia; f->ib = ib; f->da = da; f->db = db;
  return f;
}
inline FP with_args(const FP& f, std::vector<FP> a) { auto g = std::make_shared<F>(*f); g->args = std::move(a); return g; }

inline stl::ast::Interval interval_of(const F& f) {
  if (f.ik == 1) return stl::ast::Interval{f.ia, f.ib};
  if (f.ik == 2) return stl::ast::Interval{f.da, f.db};
  if (f.ik > 2) { // bounds of different types, which can only be assigned
    stl::ast::Interval i;
    if (f.ik == 3) i.low = f.ia, i.high = f.db;
    else i.low = f.da, i.high = f.ib;
    return i;
  }
  return stl::ast::Interval{};
}

// Conversion, with r by random API routes; never simplifies constants.
// Sub-formulas that occur more than once are sometimes the same object.
using Shared = std::map<const F*, stl::ast::Expr>;
inline stl::ast::Expr to_expr_1(const FP& f, Rng* r, Shared& shared);
inline stl::ast::Expr to_expr(const FP& f, Rng* r, Shared& shared) {
  if (r && r->chance(.6)) {
    auto it = shared.find(f.get());
    if (it != shared.end()) return it->second;
  }
  auto e = to_expr_1(f, r, shared);
  if (r) shared.insert({f.get(), e});
  return e;
}
inline stl::ast::Expr to_expr(const FP& f, Rng* r = nullptr) {
  Shared s;
  return to_expr(f, r, s);
}
inline stl::ast::Expr to_expr_1(const FP& f, Rng* r, Shared& shared) {
  namespace A = stl::ast;
  auto route = [&](int n) { return r ? (int)r->below((uint64_t)n) : 0; };
  std::vector<A::Expr> a;
  for (auto& x : f->args) a.push_back(to_expr(x, r, shared));
  switch (f->k) {
    case CONST: return route(2) ? A::Expr{stl::Const(f->b)} : A::Expr{A::Const{f->b}};
    case PRED:
      if (route(2)) {
        auto p = stl::Predicate(f->name);
        switch (f->op) {
          case A::ComparisonOp::GT: return p > f->c;
          case A::ComparisonOp::GE: return p >= f->c;
          case A::ComparisonOp::LT: return p < f->c;
          default: return p <= f->c;
        }
      }
      return A::Predicate{f->name, f->op, f->c};
    case NOT:
      if (!r) return std::make_shared<A::Not>(a[0]);
      return route(2) ? stl::Not(a[0]) : ~a[0];
    case AND: return route(2) ? A::Expr{std::make_shared<A::And>(a)} : stl::And(a);
    case OR: return route(2) ? A::Expr{std::make_shared<A::Or>(a)} : stl::Or(a);
    case ALW:
      if (!f->ik) return route(2) ? A::Expr{std::make_shared<A::Always>(a[0])} : stl::Always(a[0]);
      return route(2) ? A::Expr{std::make_shared<A::Always>(a[0], interval_of(*f))} : stl::Always(a[0], interval_of(*f));
    case EV:
      if (!f->ik) return route(2) ? A::Expr{std::make_shared<A::Eventually>(a[0])} : stl::Eventually(a[0]);
      return route(2) ? A::Expr{std::make_shared<A::Eventually>(a[0], interval_of(*f))} : stl::Eventually(a[0], interval_of(*f));
    case UNTIL:
      if (!f->ik) return route(2) ? A::Expr{std::make_shared<A::Until>(a[0], a[1])} : stl::Until(a[0], a[1]);
      return stl::Until(a[0], a[1], interval_of(*f));
    default: break;
  }
  // The library's functions simplify constants, which may widen the time range of the result: not done here.
  auto no = [&](const A::Expr& e) -> A::Expr { return std::make_shared<A::Not>(e); };
  auto all = [&](A::Expr x, A::Expr y) -> A::Expr { return std::make_shared<A::And>(std::vector<A::Expr>{x, y}); };
  auto any = [&](A::Expr x, A::Expr y) -> A::Expr { return std::make_shared<A::Or>(std::vector<A::Expr>{x, y}); };
  switch (f->k) {
    case IMPLIES: return !f->has_const() && route(2) ? stl::Implies(a[0], a[1]) : any(no(a[0]), a[1]);
    case IFF: return !f->has_const() && route(2) ? stl::Iff(a[0], a[1]) : any(all(a[0], a[1]), all(no(a[0]), no(a[1])));
    case XOR: return !f->has_const() && route(2) ? stl::Xor(a[0], a[1]) : all(any(a[0], a[1]), any(no(a[0]), no(a[1])));
    default: throw std::logic_error("to_expr");
  }
}

// A random admissible interval; times: interesting distances.
inline void gen_interval_raw(Rng& r, const TraceG& g, F& f) {
  const double len = g.end() - g.begin();
  auto diff = [&]() -> double { // a distance between two sample times
    auto& s = g.sig[r.below(g.sig.size())];
    auto& u = g.sig[r.below(g.sig.size())];
    return std::fabs(s[r.below(s.size())].first - u[r.below(u.size())].first);
  };
  switch (r.below(9)) {
    case 0: // integers
    case 1: {
      f.ik = 1;
      unsigned long long m = (unsigned long long)std::min(1e18, len + 2);
      f.ia = r.below(m / 2 + 2);
      f.ib = f.ia + r.below(m + 1);
      if (r.chance(.15)) f.ib = f.ia; // point window
      break;
    }
    case 2: { // sample distances
      f.ik = 2;
      double a = diff(), b = diff();
      if (a > b) std::swap(a, b);
      if (!(b > a)) b = a + g.ts;
      f.da = a; f.db = b;
      break;
    }
    case 3: { // [0, b]
      f.ik = 2;
      f.da = 0;
      f.db = r.chance(.5) ? diff() : r.real(0, 1.2 * len + .1 * g.ts);
      if (!(f.db > 0)) f.db = .5 * g.ts;
      break;
    }
    case 4: // [a, inf)
      f.ik = 2;
      f.da = r.chance(.2) ? 0 : r.chance(.5) ? diff() : r.real(0, 1.2 * len + .1 * g.ts);
      f.db = std::numeric_limits<double>::infinity();
      break;
    case 5: // beyond the trace
      if (r.chance(.5)) {
        f.ik = 1;
        f.ia = r.chance(.5) ? 0 : (unsigned long long)std::min(1e18, len) + r.below(3);
        f.ib = r.chance(.3) ? std::numeric_limits<unsigned long long>::max() : f.ia + (unsigned long long)std::min(1e18, len) + r.below(100);
      } else {
        f.ik = 2;
        f.da = r.chance(.5) ? 0 : len * r.real(.5, 1.5);
        f.db = f.da + len * r.real(1, 3) + g.ts;
      }
      break;
    case 6: { // short
      f.ik = 2;
      f.da = r.chance(.5) ? 0 : diff();
      f.db = f.da + r.real(.01, 1) * g.ts;
      break;
    }
    case 7: { // multiples of 1/4
      f.ik = 2;
      f.da = .25 * g.ts * r.range(0, 16);
      f.db = f.da + .25 * g.ts * r.range(1, 16);
      break;
    }
    default:
      f.ik = 2;
      f.da = r.real(0, len * .6 + .01 * g.ts);
      f.db = f.da + r.real(.01 * g.ts, len + .02 * g.ts);
  }
  if (f.ik == 2 && !(f.db > f.da)) f.db = f.da * 2 + 1;
  if (r.chance(.04)) {
    const double lo = f.lo(), hi = f.hi();
    f.ia = (unsigned long long)std::min(1e15, lo); // at most lo
    f.da = lo;
    if (r.chance(.5) || hi > 1e15) { f.ik = 3; f.db = std::max(hi, (double)f.ia); if (r.chance(.3)) f.db += r.unit() * g.ts; }
    else { f.ik = 4; f.ib = (unsigned long long)std::ceil(hi); if (f.da < (double)f.ib && r.chance(.3)) f.da += ((double)f.ib - f.da) * r.unit(); }
  }
}
inline void gen_interval(Rng& r, const TraceG& g, F& f) {
  do {
    f.ik = 0;
    f.ia = f.ib = 0;
    f.da = f.db = 0;
    gen_interval_raw(r, g, f);
  } while ((f.ik == 2 || f.ik == 4) && !(f.da < 1.7e308)); // with times this large, sums of distances may overflow
}

struct FormulaOpts {
  int depth      = 3;
  bool bounded   = true;
  bool until     = true;
  bool consts    = true;
  bool derived   = true; // implies, iff, xor
  bool negation  = true;
  double share   = .1;  // reuse of an existing sub-formula
};

struct FormulaGen {
  Rng& r;
  const TraceG& g;
  FormulaOpts o;
  std::vector<FP> pool{};

  double bound() {
    if (r.chance(.5)) return r.range(-3, 3) * g.vs;
    if (r.chance(.3)) { // a value occurring in the trace
      auto& s = g.sig[r.below(g.sig.size())];
      double v = s[r.below(s.size())].second;
      if (r.chance(.12)) v += v * r.range(-9, 9) * std::pow(10., -r.range(4, 15)); // almost a value of the trace
      return v;
    }
    return r.real(-5, 5) * g.vs;
  }
  FP atom() {
    if (o.consts && r.chance(.06)) return mk_const(r.chance(.5));
    return mk_pred(g.names[r.below(g.names.size())], (stl::ast::ComparisonOp)r.below(4), bound());
  }
  FP make(int depth) {
    if (depth <= 0 || r.chance(.12)) return atom();
    if (!pool.empty() && r.chance(o.share)) return pool[r.below(pool.size())];
    FP f;
    switch (r.below(14)) {
      case 0: case 1: f = o.negation ? mk(NOT, {make(depth - 1)}) : atom(); break;
      case 2: case 3: f = mk(AND, many(depth)); break;
      case 4: case 5: f = mk(OR, many(depth)); break;
      case 6: case 7: f = temporal(ALW, depth); break;
      case 8: case 9: f = temporal(EV, depth); break;
      case 10: case 11: case 12:
        f = o.until ? until(depth) : temporal(r.chance(.5) ? ALW : EV, depth);
        break;
      default: {
        Kind k = r.chance(.5) ? IMPLIES : r.chance(.5) ? IFF : XOR;
        f = o.derived ? mk(k, {make(depth - 1), make(depth - 1)}) : mk(r.chance(.5) ? AND : OR, many(depth));
      }
    }
    pool.push_back(f);
    return f;
  }
  std::vector<FP> many(int depth) {
    int n = r.chance(.7) ? 2 : r.chance(.95) ? r.range(3, 5) : r.range(6, 20);
    std::vector<FP> v;
    if (n > 5) depth = std::min(depth, 2);
    for (int i = 0; i < n; i++) v.push_back(make(depth - 1));
    return v;
  }
  FP temporal(Kind k, int depth) {
    auto f = std::make_shared<F>();
    f->k = k;
    f->args = {make(depth - 1)};
    if (o.bounded && r.chance(.55)) gen_interval(r, g, *f);
    return f;
  }
  FP until(int depth) {
    auto f = std::make_shared<F>();
    f->k = UNTIL;
    f->args = {make(depth - 1), make(depth - 1)};
    if (r.chance(.15)) { f->ik = 2; f->da = 0; f->db = std::numeric_limits<double>::infinity(); }
    return f;
  }
};

// Time range of the robustness of f; false if some operands have no common instant.
inline bool domain(const FP& f, const TraceG& g, double& b, double& e) {
  if (f->k == CONST) { b = g.begin(); e = g.end(); return true; }
  if (f->k == PRED) {
    for (size_t i = 0; i < g.names.size(); i++)
      if (g.names[i] == f->name) { b = g.sig[i].front().first; e = g.sig[i].back().first; return true; }
    return false;
  }
  bool first = true;
  for (auto& a : f->args) {
    double x, y;
    if (!domain(a, g, x, y)) return false;
    if (first) { b = x; e = y; first = false; }
    else { b = std::max(b, x); e = std::min(e, y); }
  }
  return b <= e;
}

// ---- reference evaluation ---------------------------------------------------------------

inline Pwl eval_ref(const FP& f, const TraceG& g) {
  std::vector<Pwl> a;
  for (auto& x : f->args) a.push_back(eval_ref(x, g));
  using O = stl::ast::ComparisonOp;
  switch (f->k) {
    case CONST: {
      Pwl p;
      p.push(g.begin(), f->b ? ref::INF : -ref::INF);
      if (g.end() > g.begin()) p.push(g.end(), f->b ? ref::INF : -ref::INF);
      return p;
    }
    case PRED:
      for (size_t i = 0; i < g.names.size(); i++)
        if (g.names[i] == f->name) {
          Pwl p;
          for (auto [t, v] : g.sig[i])
            p.push(t, (f->op == O::GT || f->op == O::GE) ? (R)v - (R)f->c : (R)f->c - (R)v);
          return p;
        }
      throw std::logic_error("eval_ref: name");
    case NOT: return ref::negate(a[0]);
    case AND: return ref::combine(a, false);
    case OR: return ref::combine(a, true);
    case ALW: return ref::window(a[0], f->lo(), f->hi(), false);
    case EV: return ref::window(a[0], f->lo(), f->hi(), true);
    case UNTIL: return ref::until(a[0], a[1]);
    case IMPLIES: return ref::combine({ref::negate(a[0]), a[1]}, true);
    case IFF: return ref::combine({ref::combine({a[0], a[1]}, false), ref::combine({ref::negate(a[0]), ref::negate(a[1])}, false)}, true);
    case XOR: return ref::combine({ref::combine({a[0], a[1]}, true), ref::combine({ref::negate(a[0]), ref::negate(a[1])}, true)}, false);
  }
  throw std::logic_error("eval_ref");
}

// ---- evaluation by the library ------------------------------------------------------------

// Whether all signals have the same sample times: then evaluation may be told so.
inline bool synchronous(const stl::signal::Trace& t) {
  if (t.empty()) return false;
  auto& x = *t.begin()->second;
  for (auto& [n, s] : t)
    if (s->size() != x.size() || !std::equal(x.begin(), x.end(), s->begin(), [](const stl::signal::Sample& a, const stl::signal::Sample& b) { return a.time == b.time; })) return false;
  return true;
}

inline Pwl eval_lib(Ctx& c, const stl::ast::Expr& e, const stl::signal::Trace& t, const char* what = "the robustness") {
  const bool told = (c.index + c.evaluations++) % 2 && synchronous(t);
  auto s = told ? stl::semantics::compute_robustness(e, t, true) : stl::semantics::compute_robustness(e, t);
  if (told) c.count("evaluated_as_synchronized");
  if (!s) c.fail("null", std::string(what) + " is a null pointer");
  c.count("lib_evaluations");
  c.count("samples_observed", s->size());
  return pwl(c, *s, what);
}

// Compares two piecewise-linear functions at all their breakpoints: nothing else can differ.
inline void same_function(Ctx& c, const char* key, const Pwl& got, const Pwl& want, R tol, const std::string& what) {
  if (got.begin() != want.begin() || got.end() != want.end())
    c.fail(std::string(key) + "-range", what + ": covers [" + num((double)got.begin()) + ", " + num((double)got.end()) +
           "] instead of [" + num((double)want.begin()) + ", " + num((double)want.end()) + "]\n  got:" + show(got) + "\n  want:" + show(want));
  auto check = [&](R t) {
    R a = got.at(t), b = want.at(t);
    c.count("instants_compared");
    bool ok = (a == b) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol);
    if (!ok)
      c.fail(key, what + ": at t=" + num((double)t) + " the library says " + num((double)a) + ", expected " + num((double)b) +
             " (tolerance " + num((double)tol) + ")\n  got:" + show(got) + "\n  want:" + show(want));
  };
  for (R t : got.t) check(t);
  for (R t : want.t) check(t);
}

// The same for functions with thousands of samples, given by want(t): at random instants, samples and between samples.
template <typename Want>
void same_at_instants(Ctx& c, const char* key, const Pwl& got, R begin, R end, Want want, R tol, const std::string& what, int n = 80) {
  Rng& r = c.rng;
  if (got.begin() != begin || got.end() != end)
    c.fail(std::string(key) + "-range", what + ": covers [" + num((double)got.begin()) + ", " + num((double)got.end()) + "] instead of [" +
           num((double)begin) + ", " + num((double)end) + "]");
  for (int i = 0; i < n; i++) {
    size_t k = (size_t)r.below(got.size());
    R t = i == 0 ? begin : i == 1 ? end : begin + (end - begin) * (R)r.unit();
    if (i > 1 && i % 3 == 1) t = got.t[k];
    if (i > 1 && i % 3 == 2 && k + 1 < got.size()) t = got.t[k] + (got.t[k + 1] - got.t[k]) * (R)r.unit();
    R a = got.at(t), b = want(t);
    c.count("instants_compared");
    if (!((a == b) || std::fabs(a - b) <= tol))
      c.fail(key, what + ": at t=" + num((double)t) + " the library says " + num((double)a) + ", expected " + num((double)b) + " (" +
             std::to_string(got.size()) + " samples)");
  }
}

} // namespace gen
