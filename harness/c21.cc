#include "world.hpp"
#include <iomanip>
#include <locale>
// C21: printed text read back.
namespace vh {
const char* RULE =
    "random formulas (all operators, n-ary, depth to 8 or chains to 300; bounds and intervals of every kind of double, integers below 2^53; names that look like operators) printed through every route, read back by an independent reader of the "
    "printed notation and compared bit for bit; samples and signals likewise; under a comma locale and with stream flags set; non-trivial: formula with at least 3 nodes";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace world;
namespace A = stl::ast;

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

static std::string dbits(double d) { uint64_t u; memcpy(&u, &d, 8); char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }

// What a formula is.
static void describe(std::string& o, const A::Expr& e) {
  auto iv = [&](const A::Interval& i) {
    auto [a, b] = i.as_double();
    if (a == 0 && std::isinf(b)) return;
    o += "[" + dbits(a) + "," + dbits(b) + "]";
  };
  if (auto c = std::get_if<A::Const>(&e)) { o += c->value ? "true" : "false"; return; }
  if (auto p = std::get_if<A::Predicate>(&e)) { o += "P<" + p->name + ">" + op_str(p->op) + dbits(p->rhs); return; }
  auto list = [&](const std::vector<A::Expr>& v) { o += "("; for (auto& x : v) { describe(o, x); o += ";"; } o += ")"; };
  if (auto n = std::get_if<A::NotPtr>(&e)) { o += "~"; list({(*n)->arg}); }
  else if (auto n = std::get_if<A::AndPtr>(&e)) { o += "&"; list((*n)->args); }
  else if (auto n = std::get_if<A::OrPtr>(&e)) { o += "|"; list((*n)->args); }
  else if (auto n = std::get_if<A::AlwaysPtr>(&e)) { o += "G"; iv((*n)->interval); list({(*n)->arg}); }
  else if (auto n = std::get_if<A::EventuallyPtr>(&e)) { o += "F"; iv((*n)->interval); list({(*n)->arg}); }
  else { auto& u = *std::get<A::UntilPtr>(e); o += "U"; iv(u.interval); list({u.args.first, u.args.second}); }
}

// The reader of the printed notation.
struct Bad { std::string why; };
struct Reader {
  const std::string& s;
  size_t i = 0;
  bool at(const char* t) const { return s.compare(i, strlen(t), t) == 0; }
  bool take(const char* t) { if (!at(t)) return false; i += strlen(t); return true; }
  void must(const char* t) { if (!take(t)) throw Bad{std::string("expected '") + t + "' at " + std::to_string(i)}; }
  static bool first(char c) { return isalpha((unsigned char)c) || c == '_'; }
  std::string ident() {
    size_t b = i; // anything but blanks and parentheses
    while (i < s.size() && !strchr(" ()", s[i])) i++;
    if (i == b) throw Bad{"expected a name at " + std::to_string(b)};
    return s.substr(b, i - b);
  }
  double number() {
    size_t b = i;
    while (i < s.size() && !strchr(" ,)]", s[i])) i++;
    std::string t = s.substr(b, i - b);
    if (t == "inf") return std::numeric_limits<double>::infinity();
    if (t == "-inf") return -std::numeric_limits<double>::infinity();
    if (t.empty() || t.find_first_not_of("0123456789.e+-") != std::string::npos) throw Bad{"not a number: '" + t + "'"};
    char* end;
    double v = strtod(t.c_str(), &end);
    if (*end) throw Bad{"not a number: '" + t + "'"};
    return v;
  }
  void interval(std::string& o) {
    if (!take("[")) return;
    double a = number();
    must(",");
    take(" ");
    double b = number();
    bool closed = !std::isinf(b);
    must(closed ? "]" : ")");
    if (a == 0 && !closed) throw Bad{"the interval [0, inf) is printed"};
    o += "[" + dbits(a) + "," + dbits(b) + "]";
  }
  std::string expr() {
    if (take("~")) return "~(" + expr() + ";)";
    if (take("(")) {
      // a predicate: name op number
      size_t save = i;
      if (i < s.size() && !strchr(" ()", s[i])) {
        std::string n = ident();
        static const char* ops[] = {" >= ", " <= ", " > ", " < "};
        for (auto op : ops)
          if (take(op)) {
            std::string o = "P<" + n + ">" + std::string(op + 1, strlen(op) - 2) + dbits(number());
            must(")");
            return o;
          }
        i = save;
      }
      std::string a = expr(), o;
      if (at(" & ") || at(" | ")) {
        const char* op = at(" & ") ? " & " : " | ";
        o = std::string(1, op[1]) + "(" + a + ";";
        while (take(op)) o += expr() + ";";
        must(")");
        return o + ")";
      }
      must(" U");
      o = "U";
      interval(o);
      must(" ");
      std::string b = expr();
      must(")");
      return o + "(" + a + ";" + b + ";)";
    }
    if (take("true")) return "true";
    if (take("false")) return "false";
    std::string o;
    if (take("G")) o = "G";
    else if (take("F")) o = "F";
    else throw Bad{"no formula at " + std::to_string(i)};
    interval(o);
    must(" ");
    return o + "(" + expr() + ";)";
  }
};

static double any_double(Rng& r) {
  const double inf = std::numeric_limits<double>::infinity();
  switch (r.below(9)) {
    case 0: case 1: return r.range(-20, 20);
    case 2: return r.range(-200, 200) * .1;
    case 3: return r.real(-100, 100);
    case 4: { static const double v[] = {0., -0., 1e22, 1e23, 9007199254740993., 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, .1, .30000000000000004, 1e15, 1e16, 123456789012345680., 1e-5, 1e-4, 4.35, 0.000123456, 1e100}; return v[r.below(18)] * (r.chance(.3) ? -1 : 1); }
    case 5: return r.chance(.5) ? inf : -inf;
    case 6: { double d = r.real(-1, 1); return std::nextafter(d, inf); }
    default: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1. : d; }
  }
}

static A::Interval any_interval(Rng& r) {
  const double inf = std::numeric_limits<double>::infinity();
  if (r.chance(.4)) {
    unsigned long long a = r.chance(.5) ? r.below(30) : r.below(1ull << 53), b = a + (r.chance(.5) ? r.below(30) : r.below((1ull << 53) - a + 1));
    return A::Interval{a, std::min(b, 1ull << 53)};
  }
  double a = std::fabs(any_double(r)), b = r.chance(.2) ? inf : std::fabs(any_double(r));
  if (r.chance(.2)) a = r.chance(.5) ? 0. : -0.;
  if (a > b) std::swap(a, b);
  if (std::isinf(a)) a = 3;
  if (!(b > a)) b = inf;
  return A::Interval{a, b};
}

static A::Expr atom(Rng& r) {
  if (r.chance(.1)) return A::Const{r.chance(.5)};
  std::string n = spec::ident(r);
  if (r.chance(.04)) { // not an identifier
    static const char* odd[] = {"{}", "{", "}", "{{", "}}", "{0}", "%s", "%n", "a.b", "x:y", "\xc3\xa9", "-", "1", "~x", "x~", "&", "|", ">", ">=", "<", ",", "[", "]", "G[0,1]", "U[0,1]", "\\n", "\"", "'", "$x", "a-b", "a/b", "x;y", "\xff", "\x01", "inf", "x=1", "{:f}", "#"};
    n = r.chance(.3) ? odd[r.below(38)] : r.chance(.5) ? n + odd[r.below(38)] : odd[r.below(38)] + n;
  }
  return A::Predicate{n, (A::ComparisonOp)r.below(4), any_double(r)};
}
static A::Expr make(Rng& r, int d) {
  if (d <= 0 || r.chance(.12)) return atom(r);
  auto some = [&] { std::vector<A::Expr> v; for (int n = r.chance(.6) ? 2 : r.range(3, 6); n > 0; n--) v.push_back(make(r, d - 1)); return v; };
  switch (r.below(10)) {
    case 0: return std::make_shared<A::Not>(make(r, d - 1));
    case 1: case 2: return std::make_shared<A::And>(some());
    case 3: case 4: return std::make_shared<A::Or>(some());
    case 5: return r.chance(.5) ? stl::Always(make(r, d - 1)) : stl::Eventually(make(r, d - 1));
    case 6: return stl::Always(make(r, d - 1), any_interval(r));
    case 7: return stl::Eventually(make(r, d - 1), any_interval(r));
    case 8: return stl::Until(make(r, d - 1), make(r, d - 1));
    default: return stl::Until(make(r, d - 1), make(r, d - 1), any_interval(r));
  }
}
static size_t nodes(const std::string& d) { return (size_t)std::count(d.begin(), d.end(), ';') + 1; }

void run_case(Ctx& c) {
  Rng& r = c.rng;
  struct Locale {
    std::locale old;
    bool on;
    explicit Locale(bool on) : old(std::locale()), on(on) { if (on) std::locale::global(std::locale(std::locale::classic(), new Comma)); }
    ~Locale() { if (on) std::locale::global(old); }
  } locale(r.chance(.2));
  A::Expr e;
  if (r.chance(.03)) {
    e = atom(r);
    #ifdef __SANITIZE_ADDRESS__
    const int deep = 250; // frames are many times as large there
#else
    const int deep = 900;
#endif
    for (int n = r.range(20, r.chance(.8) ? 250 : deep); n > 0; n--) {
      switch (r.below(5)) {
        case 0: e = std::make_shared<A::Not>(e); break;
        case 1: e = stl::Always(e, any_interval(r)); break;
        case 2: e = std::make_shared<A::And>(std::vector<A::Expr>{atom(r), e}); break;
        case 3: e = stl::Until(e, atom(r)); break;
        default: e = std::make_shared<A::Or>(std::vector<A::Expr>{e, atom(r), atom(r)});
      }
    }
    c.count("chains");
  } else if (r.chance(.006)) {
    std::vector<A::Expr> v;
    for (int n = r.range(20, 2000); n > 0; n--) v.push_back(r.chance(.05) ? make(r, 2) : atom(r));
    if (r.chance(.5)) e = std::make_shared<A::And>(v);
    else e = std::make_shared<A::Or>(v);
    c.count("wide_formulas");
  } else e = make(r, r.range(0, r.chance(.1) ? 8 : 4));
  std::string want;
  describe(want, e);
  if (want.size() > 400000) throw Skip{};
  const std::string shot = snap(e, true);
  std::vector<std::pair<const char*, std::string>> texts;
  {
    std::ostringstream o;
    if (r.chance(.3)) { o << std::setprecision((int)r.below(4)) << std::fixed << std::showpos; }
    else if (r.chance(.2)) o << std::hex << std::boolalpha << std::uppercase;
    o << e;
    texts.push_back({"operator<<", o.str()});
  }
  texts.push_back({"fmt::to_string", fmt::to_string(e)});
  texts.push_back({"fmt::format", fmt::format("{}", e)});
  // the node itself
  std::visit([&](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, A::Const> || std::is_same_v<T, A::Predicate>) texts.push_back({"fmt of the node", fmt::to_string(x)});
    else texts.push_back({"fmt of the node", fmt::to_string(*x)});
  }, e);
  c.desc("formula " + want.substr(0, 1500) + "\nprinted " + texts[0].second.substr(0, 1500));
  for (auto& [route, t] : texts) {
    c.count("texts_read_back");
    std::string got;
    try {
      Reader rd{t};
      got = rd.expr();
      if (rd.i != t.size()) throw Bad{"text after the formula at " + std::to_string(rd.i)};
    } catch (const Bad& b) {
      c.fail("unreadable", std::string(route) + ": " + b.why + " in " + t.substr(0, 1500));
    }
    if (got != want) c.fail("says-something-else", std::string(route) + " printed " + t.substr(0, 1500) + "\nwhich says " + got.substr(0, 1500) + "\nbut the formula is " + want.substr(0, 1500));
  }
  if (snap(e, true) != shot) c.fail("changed", "printing changed the formula");
  // inside of other text, several at once
  if (r.chance(.3)) {
    auto e2 = make(r, 2);
    auto t = fmt::format("<{}|{}>", e, e2);
    if (t != "<" + fmt::to_string(e) + "|" + fmt::to_string(e2) + ">") c.fail("composition", "printing two formulas in one text gives something else: " + t.substr(0, 1500));
  }
  // signals and samples
  {
    Points p;
    double t = r.chance(.5) ? 0 : any_double(r);
    if (!std::isfinite(t)) t = -1;
    int n = r.chance(.05) ? r.range(50, 400) : r.range(0, 9);
    if (r.chance(.004)) {
      n = r.range(400, 5000);
#ifndef VH_SANITIZED
      if (r.chance(.03)) n = r.range(65500, 80000);
#endif
      t = r.range(-100, 100);
    }
    for (int i = 0; i < n; i++) {
      p.push_back({t, any_double(r)});
      double u = r.chance(.3) ? std::nextafter(t, 1e300) : t + std::fabs(r.real(0, 5));
      if (!(u > t) || !std::isfinite(u)) break;
      t = u;
    }
    Signal s;
    for (auto [a, b] : p) s.push_back(a, b);
    auto text = fmt::to_string(s);
    auto text2 = fmt::format("{}", s);
    if (text != text2) c.fail("signal-text", "a signal prints in two ways");
    Points got;
    try {
      Reader rd{text};
      rd.must("[");
      while (!rd.at("]")) {
        if (!got.empty()) rd.must(", ");
        rd.must("(");
        double a = rd.number();
        rd.must(", ");
        double b = rd.number();
        rd.must(")");
        got.push_back({a, b});
      }
      rd.must("]");
      if (rd.i != text.size()) throw Bad{"text after the signal"};
    } catch (const Bad& b) {
      c.fail("signal-text", "a signal is printed as " + text.substr(0, 1500) + ": " + b.why);
    }
    if (got.size() != p.size() || (!p.empty() && memcmp(got.data(), p.data(), got.size() * sizeof got[0])))
      c.fail("signal-text", "a signal is printed as " + text.substr(0, 2000) + " but is" + show(pwl(p)));
    for (size_t i = 0; i < s.size(); i++) {
      auto x = s.at_idx(i);
      x.derivative = any_double(r);
      auto st = fmt::to_string(x);
      Reader rd{st};
      try {
        rd.must("(");
        double a = rd.number();
        rd.must(", ");
        double b = rd.number();
        rd.must(")");
        if (rd.i != st.size()) throw Bad{"text after the sample"};
        if (dbits(a) != dbits(x.time) || dbits(b) != dbits(x.value)) throw Bad{"it says something else"};
      } catch (const Bad& b) {
        c.fail("sample-text", "the sample (" + num(x.time) + ", " + num(x.value) + ") is printed as " + st + ": " + b.why);
      }
    }
    c.count("samples_read_back", 2 * s.size());
  }
  c.nontrivial = nodes(want) >= 3;
  c.hash = hash_str(want);
}
} // namespace vh
