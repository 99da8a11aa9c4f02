// Comparing what was parsed with what was written.
#pragma once
#include "refparse.hpp"
#include "world.hpp"

namespace speccheck {
using namespace gen;
using refparse::Spec;

inline size_t tree_size(const FP& f, std::map<const F*, size_t>& memo) {
  auto it = memo.find(f.get());
  if (it != memo.end()) return it->second;
  size_t n = 1;
  for (auto& a : f->args) n += tree_size(a, memo);
  if (f->k == IFF || f->k == XOR) n *= 3;
  return memo[f.get()] = std::min(n, (size_t)1 << 40);
}

// Snapshot of an expression whose shared parts are visited once (equal formulas, equal snapshots).
struct Digest {
  std::map<const void*, uint64_t> memo;
  uint64_t of(const stl::ast::Expr& e) {
    namespace A = stl::ast;
    uint64_t h = mix(e.index() + 1);
    if (std::get_if<A::Const>(&e) || std::get_if<A::Predicate>(&e)) return hash_str(world::snap(e, false), h);
    const void* p = std::visit([](const auto& x) -> const void* {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, A::Const> || std::is_same_v<std::decay_t<decltype(x)>, A::Predicate>) return nullptr;
      else return x.get();
    }, e);
    auto it = memo.find(p);
    if (it != memo.end()) return it->second;
    auto arg = [&](const A::Expr& x) { h = mix(h * 31 + of(x)); };
    auto iv = [&](const A::Interval& i) { std::string o; world::snap(o, i); h = hash_str(o, h); };
    if (auto n = std::get_if<A::NotPtr>(&e)) arg((*n)->arg);
    else if (auto n = std::get_if<A::AndPtr>(&e)) { h += (*n)->args.size(); for (auto& a : (*n)->args) arg(a); }
    else if (auto n = std::get_if<A::OrPtr>(&e)) { h += (*n)->args.size(); for (auto& a : (*n)->args) arg(a); }
    else if (auto n = std::get_if<A::AlwaysPtr>(&e)) { iv((*n)->interval); arg((*n)->arg); }
    else if (auto n = std::get_if<A::EventuallyPtr>(&e)) { iv((*n)->interval); arg((*n)->arg); }
    else if (auto n = std::get_if<A::UntilPtr>(&e)) { iv((*n)->interval); arg((*n)->args.first); arg((*n)->args.second); }
    return memo[p] = h;
  }
};

inline std::string text(const stl::ast::Expr& e) {
  std::ostringstream o;
  o << e;
  return o.str().substr(0, 1500);
}

inline void same_spec(Ctx& c, const stl::Specification& got, const Spec& want) {
  std::map<const F*, stl::ast::Expr> memo;
  std::map<const F*, size_t> sizes;
  Digest d;
  auto one = [&](const char* what, const std::map<std::string, stl::ast::Expr>& g, const std::map<std::string, FP>& w) {
    for (auto& [n, e] : g)
      if (!w.count(n)) c.fail("extra", std::string(what) + " " + n + " was defined though it was not written");
    for (auto& [n, f] : w) {
      auto it = g.find(n);
      if (it == g.end()) c.fail("missing", std::string(what) + " " + n + " is missing");
      auto e = refparse::built(f, memo);
      c.count("formulas_compared");
      bool same = d.of(it->second) == d.of(e);
      if (!same) {
        bool small = tree_size(f, sizes) < 2000;
        c.fail("misread", std::string(what) + " " + n + " was read as " + (small ? text(it->second) : std::string("something else")) + "\n instead of " + (small ? text(e) : std::string("what was written")));
      }
    }
  };
  one("formula", got.formulas, want.formulas);
  one("assertion", got.assertions, want.assertions);
}

// Parses text that ends exactly where its buffer ends, or goes on with something that must not be read.
inline std::unique_ptr<stl::Specification> parse(const std::string& t, bool exact) {
  if (exact) {
    std::unique_ptr<char[]> b(new char[t.size() ? t.size() : 1]);
    memcpy(b.get(), t.data(), t.size());
    return stl::parser::from_string(std::string_view(b.get(), t.size()));
  }
  std::string more = t + "9) (assert zzz true) ))";
  return stl::parser::from_string(std::string_view(more.data(), t.size()));
}

// ---- text from formulas ---------------------------------------------------------------------

struct Writer {
  Rng& r;
  std::string o;
  bool word = false; // the last thing written ends like a word
  void sp(bool must = false) { std::string s = spec::sep(r, must); o += s; if (!s.empty()) word = false; }
  void w(const std::string& t) { // a word or a number
    if (word) sp(true);
    else sp();
    o += t;
    word = true;
  }
  void p(const char* t) { sp(); o += t; word = false; }

  std::map<const F*, std::string> names; // formulas that may be written by name
  double paren = .05;

  void term(const FP& f, bool define = false) {
    auto it = names.find(f.get());
    if (!define && it != names.end() && r.chance(.8)) {
      bool par = r.chance(std::min(3 * paren, .9));
      if (par) p("(");
      w(it->second);
      if (par) p(")");
      return;
    }
    int par = r.chance(paren) ? r.range(1, 3) : 0;
    for (int i = 0; i < par; i++) p("(");
    static const char* kw[] = {"", "", "not", "and", "or", "always", "eventually", "until", "implies", "iff", "xor"};
    if (f->k == CONST) w(f->b ? "true" : "false");
    else if (f->k == PRED) {
      p("(");
      bool flip = r.chance(.35);
      static const char* ops[] = {">", ">=", "<", "<="};
      static const int fl[] = {2, 3, 0, 1};
      p(ops[flip ? fl[(int)f->op] : (int)f->op]);
      if (flip) { w(numbers.at(f.get())); w(f->name); }
      else { w(f->name); w(numbers.at(f.get())); }
      p(")");
    } else {
      p("(");
      w(kw[f->k]);
      for (auto& a : f->args) term(a);
      p(")");
    }
    for (int i = 0; i < par; i++) p(")");
  }
  std::map<const F*, std::string> numbers;
};

struct SpecGen {
  Rng& r;
  Writer w;
  Spec spec;
  std::vector<FP> defined;
  std::vector<std::string> signals;
  explicit SpecGen(Rng& r) : r(r), w{r} {
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) signals.push_back(spec::ident(r));
  }
  FP atom() {
    if (r.chance(.12)) return mk_const(r.chance(.5));
    auto n = spec::number(r);
    FP f = mk_pred(signals[r.below(signals.size())], (stl::ast::ComparisonOp)r.below(4), n.value);
    w.numbers[f.get()] = n.text;
    keep.push_back(f);
    return f;
  }
  std::vector<FP> keep;
  FP make(int d) {
    if (!defined.empty() && r.chance(.2)) return defined[r.below(defined.size())];
    if (d <= 0 || r.chance(.15)) return atom();
    FP f;
    switch (r.below(9)) {
      case 0: f = mk(NOT, {make(d - 1)}); break;
      case 1: case 2: { int n = r.chance(.7) ? 2 : r.range(3, 6); std::vector<FP> v; for (int i = 0; i < n; i++) v.push_back(make(d - 1)); f = mk(r.chance(.5) ? AND : OR, v); break; }
      case 3: f = mk(ALW, {make(d - 1)}); break;
      case 4: f = mk(EV, {make(d - 1)}); break;
      case 5: { FP a = make(d - 1), b = make(d - 1); f = mk(UNTIL, {a, b}); break; }
      case 6: { FP a = make(d - 1), b = make(d - 1); f = mk(IMPLIES, {a, b}); break; }
      case 7: { FP a = make(d - 1), b = make(d - 1); f = mk(r.chance(.5) ? IFF : XOR, {a, b}); break; }
      default: f = mk(NOT, {atom()});
    }
    keep.push_back(f);
    return f;
  }
  std::string fresh(const std::map<std::string, FP>& used) {
    std::string n = spec::ident(r);
    if (r.chance(.3) && !signals.empty()) n = signals[r.below(signals.size())]; // names of signals may be reused
    while (used.count(n) || n == "true" || n == "false") n += "_";
    return n;
  }
  std::map<const F*, size_t> sizes;
  void command(const FP& f, bool assertion) {
    if (tree_size(f, sizes) > 3000) return;
    auto n = fresh(assertion ? spec.assertions : spec.formulas);
    w.p("(");
    w.w(assertion ? "assert" : "define-formula");
    w.w(n);
    w.term(f, false);
    w.p(")");
    if (assertion) spec.assertions[n] = f;
    else {
      spec.formulas[n] = f;
      if (f->k != CONST) w.names[f.get()] = n; // from now on by name
      defined.push_back(f);
    }
  }
};

} // namespace speccheck
