#include "sig.hpp"
#include <deque>
#include <list>
// C14: construction against an exact model.
namespace vh {
const char* RULE =
    "random histories of appends (valid ones, and ones at, before or infinitely before the end, or NaN), constructions from lists, points and times, copies and assignments on a pool of signals; after every step "
    "all signals are compared with an exact model (times, values, slopes, order, every accessor); non-trivial: an append was refused on a signal with at least 2 samples";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace sig;

void run_case(Ctx& c) {
  Rng& r = c.rng;
  struct E { SignalPtr s; Points p; };
  std::vector<E> pool;
  auto check = [&](const std::string& what) {
    for (auto& e : pool) check_contents(c, *e.s, e.p, what);
    c.count("steps");
  };
  auto times_ok = [](const Points& p) { for (size_t i = 0; i + 1 < p.size(); i++) if (!(p[i + 1].first > p[i].first)) return false; return true; };
  auto add = [&](SignalPtr s, Points p) { if (pool.size() > 5) pool.erase(pool.begin() + (long)r.below(pool.size())); pool.push_back({std::move(s), std::move(p)}); };
  const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  auto breakp = [&](Points p) { // a list that does not increase
    if (p.size() < 2) p = {{0, 1}, {1, 2}, {2, 0}};
    size_t i = 1 + r.below(p.size() - 1);
    switch (r.below(4)) {
      case 0: p[i].first = p[i - 1].first; break;
      case 1: p[i].first = next_to(p[i - 1].first, -inf); break;
      case 2: p[i].first = nan; break;
      default: std::swap(p[i].first, p[i - 1].first);
    }
    return p;
  };
  bool refused = false;
  int n = r.range(5, 25);
  for (int i = 0; i < n; i++) {
    int op = pool.empty() ? (int)r.below(5) : (int)r.below(16);
    switch (op) {
      case 0: { c.desc("empty signal"); add(std::make_shared<Signal>(), {}); break; }
      case 1: { // list of samples, whose derivatives do not matter
        Points p = gen_points(r, 10, true);
        bool ok = r.chance(.75);
        if (!ok) p = breakp(p);
        c.desc((ok ? "from samples" : "from a bad list") + show(p));
        std::vector<Sample> v;
        for (auto [t, x] : p) v.push_back({t, x, r.chance(.5) ? 0 : r.real(-9, 9)});
        if (ok) {
          switch (r.below(3)) {
            case 0: add(std::make_shared<Signal>(v), p); break;
            case 1: { std::list<Sample> l(v.begin(), v.end()); add(std::make_shared<Signal>(l), p); break; }
            default: { std::deque<Sample> l(v.begin(), v.end()); add(std::make_shared<Signal>(l), p); }
          }
        } else if (!refuses([&] { Signal x(v); })) c.fail("not-refused", "a list of samples whose times do not increase was accepted");
        break;
      }
      case 2: { // points and times
        Points p = gen_points(r, 10, true);
        int how = (int)r.below(4);
        if (how == 0) p = breakp(p);
        c.desc((how < 2 ? "from bad points and times" : "from points and times") + show(p));
        std::vector<double> v, t;
        for (auto [a, b] : p) { t.push_back(a); v.push_back(b); }
        if (how == 1) { if (r.chance(.5)) t.push_back(t.back() + 1); else if (r.chance(.3)) t.clear(); else v.push_back(0); }
        if (how >= 2) add(std::make_shared<Signal>(v, t), p);
        else if (!refuses([&] { Signal x(v, t); })) c.fail("not-refused", how ? "points and times of different length were accepted" : "times that do not increase were accepted");
        break;
      }
      case 3: { Points p = gen_points(r, 10, true); c.desc("appending" + show(p)); add(make(p), p); break; }
      case 4: { // with infinite values
        double v = r.chance(.5) ? inf : -inf;
        Points p{{0, v}, {1, v}, {2.5, v}};
        c.desc("infinite");
        add(make(p), p);
        break;
      }
      case 5: case 6: case 7: case 8: { // append
        auto& e = pool[r.below(pool.size())];
        double t = e.p.empty() ? r.real(-10, 10) : r.chance(.2) ? next_to(e.p.back().first, inf) : e.p.back().first + std::max(r.real(.001, 3), 1e-9 * std::fabs(e.p.back().first));
        double v = !e.p.empty() && r.chance(.3) ? e.p.back().second : !e.p.empty() && std::isinf(e.p.back().second) ? e.p.back().second : r.real(-10, 10);
        c.desc("append (" + num(t) + ", " + num(v) + ")");
        if (r.chance(.5)) e.s->push_back(t, v);
        else e.s->push_back(Sample{t, v, r.chance(.5) ? nan : r.real(-5, 5)});
        e.p.push_back({t, v});
        break;
      }
      case 9: case 10: case 11: { // refused append
        auto& e = pool[r.below(pool.size())];
        double t;
        if (e.p.empty()) t = nan;
        else {
          double en = e.p.back().first;
          const double ts[] = {en, next_to(en, -inf), en - 1 - 1e-9 * std::fabs(en), e.p.front().first, -inf, nan, -nan, en == 0 ? -0. : en};
          t = ts[r.below(8)];
        }
        c.desc("append to be refused at " + num(t));
        bool ref = r.chance(.5) ? refuses([&] { e.s->push_back(t, 1); }) : refuses([&] { e.s->push_back(Sample{t, e.p.empty() ? 0 : e.p.back().second, 0}); });
        if (!ref) c.fail("not-refused", "an append at " + num(t) + " was accepted by a signal" + (e.p.empty() ? " without samples" : " ending at " + num(e.p.back().first)));
        c.count("appends_refused");
        if (e.p.size() >= 2) refused = true;
        break;
      }
      case 12: { auto& e = pool[r.below(pool.size())]; c.desc("copy"); add(std::make_shared<Signal>(*e.s), Points(e.p)); break; }
      case 13: { // assignment; the two stay independent
        size_t i1 = r.below(pool.size()), i2 = r.below(pool.size());
        c.desc("assign");
        *pool[i1].s = *pool[i2].s;
        pool[i1].p = Points(pool[i2].p);
        break;
      }
      case 14: { // copies through other containers
        auto& e = pool[r.below(pool.size())];
        c.desc("copy through a list");
        std::list<Sample> l(e.s->begin(), e.s->end());
        add(std::make_shared<Signal>(l), Points(e.p));
        break;
      }
      default: {
        auto& e = pool[r.below(pool.size())];
        c.desc("index past the end");
        if (!refuses([&] { (void)e.s->at_idx(e.p.size()); })) c.fail("at-idx", "an index past the end was accepted");
      }
    }
    for (auto& e : pool) if (!times_ok(e.p)) throw std::logic_error("harness: model");
    check("after step " + std::to_string(i));
  }
  c.nontrivial = refused;
  c.hash = hash_str(c.describe);
}
} // namespace vh
