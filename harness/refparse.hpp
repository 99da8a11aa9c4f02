// An independent recursive-descent reader of the specification language (the grammar of src/parser/grammar.hpp as
// documented there). Says of any byte string: well-formed with this meaning, malformed, or undecided.
#pragma once
#include "gen.hpp"

namespace refparse {
using namespace gen;

struct Bad { std::string why; };
struct Undecided {};

struct Spec {
  std::map<std::string, FP> formulas, assertions;
};

struct Reader {
  std::string_view s;
  size_t i = 0;
  int level = 0;
  bool undecided = false;
  Spec spec;

  static bool first(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
  static bool digit(int c) { return c >= '0' && c <= '9'; }
  static bool other(int c) { return first(c) || digit(c); }
  int at(size_t k) const { return k < s.size() ? (unsigned char)s[k] : -1; }
  int peek() const { return at(i); }
  [[noreturn]] void bad(const char* why) const { throw Bad{std::string(why) + " at byte " + std::to_string(i)}; }

  void skip() {
    for (;;) {
      int c = peek();
      if (c == ' ' || (c >= 9 && c <= 13)) i++;
      else if (c == ';') {
        while (i < s.size() && s[i] != '\n') i++;
        if (i < s.size()) i++;
      } else return;
    }
  }
  bool punct(char c) {
    if (peek() != c) return false;
    i++;
    skip();
    return true;
  }
  bool kw(std::string_view w) {
    if (s.substr(i, w.size()) != w || other(at(i + w.size()))) return false;
    i += w.size();
    skip();
    return true;
  }
  std::optional<std::string> ident() {
    if (!first(peek())) return {};
    size_t b = i;
    while (other(peek())) i++;
    std::string r(s.substr(b, i - b));
    skip();
    return r;
  }
  std::optional<double> number() {
    if (!digit(peek())) return {};
    size_t b = i, e = i;
    while (digit(at(e))) e++;
    bool real = false;
    auto exponent = [&](size_t k) { // at an 'e': digits must follow
      k++;
      if (at(k) == '+' || at(k) == '-') k++;
      if (!digit(at(k))) bad("no digits in the exponent");
      while (digit(at(k))) k++;
      return k;
    };
    auto is_e = [&](size_t k) { return at(k) == 'e' || at(k) == 'E'; };
    if (at(e) == '.' && digit(at(e + 1))) {
      real = true;
      e++;
      while (digit(at(e))) e++;
      if (is_e(e)) e = exponent(e);
    } else {
      size_t k = at(e) == '.' ? e + 1 : e;
      if (is_e(k)) { real = true; e = exponent(k); }
    }
    std::string t(s.substr(b, e - b));
    i = e;
    double v = 0;
    if (real) {
      v = strtod(t.c_str(), nullptr);
      if (std::isinf(v)) bad("real out of range");
      bool zero = t.find_first_of("123456789") == std::string::npos || t.find_first_of("123456789") > std::min(t.find('e'), t.find('E'));
      if (std::fabs(v) < std::numeric_limits<double>::min() && !zero) undecided = true; // underflow
    } else {
      unsigned __int128 n = 0;
      for (char c : t) { n = n * 10 + (unsigned)(c - '0'); if (n > (unsigned __int128)std::numeric_limits<long>::max()) bad("integer out of range"); }
      v = (double)(long)n;
    }
    skip();
    return v;
  }
  FP must_term() { FP f = term(); if (!f) bad("expected a term"); return f; }
  std::vector<FP> terms() { std::vector<FP> v; while (FP f = term()) v.push_back(f); return v; }

  FP term() { // null: none here
    struct L { int& l; explicit L(int& x) : l(x) { l++; } ~L() { l--; } } guard(level);
    if (level > 900) undecided = true;
    if (level > 1000) throw Undecided{};
    if (punct('(')) {
      FP f = expression();
      if (!punct(')')) bad("expected )");
      return f;
    }
    if (kw("true")) return mk_const(true);
    if (kw("false")) return mk_const(false);
    if (auto n = ident()) {
      auto it = spec.formulas.find(*n);
      if (it == spec.formulas.end()) bad("undefined name");
      return it->second;
    }
    return nullptr;
  }
  FP expression() {
    using O = stl::ast::ComparisonOp;
    int c = peek(), d = at(i + 1);
    std::optional<O> op;
    if (c == '<' && d == '=') { op = O::LE; i += 2; }
    else if (c == '>' && d == '=') { op = O::GE; i += 2; }
    else if (c == '<' && d != '<') { op = O::LT; i++; }
    else if (c == '>' && d != '>') { op = O::GT; i++; }
    if (op) {
      skip();
      if (auto n = ident()) {
        auto v = number();
        if (!v) bad("expected a number");
        return mk_pred(*n, *op, *v);
      }
      auto v = number();
      if (!v) bad("expected a name or a number");
      auto n = ident();
      if (!n) bad("expected a name");
      static const O flip[] = {O::LT, O::LE, O::GT, O::GE};
      return mk_pred(*n, flip[(int)*op], *v); // GT GE LT LE
    }
    if (kw("not")) return mk(NOT, {must_term()});
    for (auto [w, k] : {std::pair{"and", AND}, {"or", OR}})
      if (kw(w)) {
        auto v = terms();
        if (v.size() < 2) bad("expected at least two terms");
        return mk(k, v);
      }
    for (auto [w, k] : {std::pair{"implies", IMPLIES}, {"iff", IFF}, {"xor", XOR}, {"until", UNTIL}})
      if (kw(w)) {
        FP a = must_term();
        FP b = must_term();
        return mk(k, {a, b});
      }
    if (kw("always")) return mk(ALW, {must_term()});
    if (kw("eventually")) return mk(EV, {must_term()});
    return must_term();
  }
  void command() {
    if (!punct('(')) bad("expected a command");
    bool a = kw("assert");
    if (!a && !kw("define-formula")) bad("unknown command");
    auto n = ident();
    if (!n) bad("expected a name");
    FP f = must_term();
    if (!(a ? spec.assertions : spec.formulas).insert({*n, f}).second) bad("redefinition");
    if (!punct(')')) bad("expected )");
  }
  void run() {
    skip();
    while (i < s.size()) { command(); skip(); }
  }
};

enum Outcome { GOOD, BAD, UNDECIDED };

inline Outcome read(std::string_view text, Spec& out, std::string& why) {
  Reader r;
  r.s = text;
  try {
    r.run();
  } catch (const Bad& b) {
    why = b.why;
    return BAD; // whatever was undecided before: refused all the same
  } catch (const Undecided&) {
    return UNDECIDED;
  }
  out = std::move(r.spec);
  return r.undecided ? UNDECIDED : GOOD;
}

// The formula the library should build, by the library's own constructors.
inline stl::ast::Expr built(const FP& f, std::map<const F*, stl::ast::Expr>& memo) {
  auto it = memo.find(f.get());
  if (it != memo.end()) return it->second;
  std::vector<stl::ast::Expr> a;
  for (auto& x : f->args) a.push_back(built(x, memo));
  auto e = [&]() -> stl::ast::Expr {
    switch (f->k) {
      case CONST: return stl::ast::Const{f->b};
      case PRED: return stl::ast::Predicate{f->name, f->op, f->c};
      case NOT: return stl::Not(a[0]);
      case AND: return stl::And(a);
      case OR: return stl::Or(a);
      case ALW: return stl::Always(a[0]);
      case EV: return stl::Eventually(a[0]);
      case UNTIL: return stl::Until(a[0], a[1]);
      case IMPLIES: return stl::Implies(a[0], a[1]);
      case IFF: return stl::Iff(a[0], a[1]);
      default: return stl::Xor(a[0], a[1]);
    }
  }();
  memo.emplace(f.get(), e);
  return e;
}

} // namespace refparse
