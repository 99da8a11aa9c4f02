#include "speccheck.hpp"
// C19: malformed specifications are refused; nothing is misread.
namespace vh {
const char* RULE =
    "well-formed specifications damaged by token and byte mutations, truncation, undefined names, redefinitions, wrong arity, numbers out of range; token soup; random bytes; unbalanced and extreme nesting; "
    "accepted exactly if an independent reader accepts them, and then with the same meaning; non-trivial: the reader refuses the text";
void setup(bool) {}
void finish(std::map<std::string, uint64_t>&) {}
using namespace gen;
using namespace speccheck;

static std::vector<std::string> tokens(const std::string& t) {
  std::vector<std::string> v;
  for (size_t i = 0; i < t.size();) {
    if (refparse::Reader::other((unsigned char)t[i]) || t[i] == '.' || t[i] == '-') {
      size_t b = i;
      while (i < t.size() && (refparse::Reader::other((unsigned char)t[i]) || t[i] == '.' || t[i] == '-' || t[i] == '+')) i++;
      v.push_back(t.substr(b, i - b));
    } else if (t[i] == ';') {
      while (i < t.size() && t[i] != '\n') i++;
      v.push_back("\n");
    } else v.push_back(std::string(1, t[i++]));
  }
  return v;
}
static std::string join(const std::vector<std::string>& v) { std::string o; for (auto& s : v) o += s; return o; }

static std::string token(Rng& r) {
  static const char* t[] = {"(", ")", "(", ")", " ", " ", "\n", ";", "assert", "define-formula", "and", "or", "not", "implies", "iff", "xor", "always", "eventually", "until", "true", "false",
                            "x", "y", "phi", "<", ">", "<=", ">=", "=", "<<", ">>", "==", "!=", "1", "1.5", "1e5", "1.", ".5", "1e", "1e+", "-1", "+1", "1.5e", "1e999", "99999999999999999999", "9223372036854775808", "0x1F", "1_0", "1,5",
                            "inf", "nan", "\"x\"", "'", "[0,1]", "[", "]", "{", "}", ",", "#", "/*", "\\", "define", "formula", "-", "define-formulaphi", "G", "F", "U", "&", "|", "~", "\xc3\xa9", "TRUE", "And", "assert-", "x.y", "x-y"};
  return t[r.below(sizeof t / sizeof *t)];
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  std::string t;
  const int kind = (int)r.below(30);
  const char* what = "";
  auto base = [&] {
    SpecGen g(r);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) g.command(g.make(r.range(0, 3)), r.chance(.4));
    return g.w.o;
  };
  if (kind < 14) {
    what = "token mutations";
    auto v = tokens(base());
    for (int k = r.chance(.7) ? 1 : r.range(2, 4); k > 0 && !v.empty(); k--) {
      size_t i = r.below(v.size());
      // mostly at tokens, not at blanks
      for (int a = 0; a < 3 && isspace((unsigned char)v[i][0]); a++) i = r.below(v.size());
      switch (r.below(10)) {
        case 0: v.erase(v.begin() + (long)i); break;
        case 1: v.insert(v.begin() + (long)i, v[i]); break;
        case 2: v.insert(v.begin() + (long)i, token(r)); v.insert(v.begin() + (long)i + 1, " "); break;
        case 3: v[i] = token(r); break;
        case 4: std::swap(v[i], v[r.below(v.size())]); break;
        case 5: { size_t j = std::min(v.size(), i + 1 + r.below(8)); std::vector<std::string> part(v.begin() + (long)i, v.begin() + (long)j); v.insert(v.begin() + (long)r.below(v.size()), part.begin(), part.end()); break; }
        case 6: case 7: { // a damaged number
          std::vector<size_t> num;
          for (size_t j = 0; j < v.size(); j++) if (refparse::Reader::digit((unsigned char)v[j][0])) num.push_back(j);
          if (num.empty()) { v[i] = token(r); break; }
          std::string& n = v[num[r.below(num.size())]];
          for (int m = r.range(1, 3); m > 0; m--) {
            char ch = "0123456789.eEeE..+-_xfL, '"[r.below(26)];
            size_t at = r.chance(.4) ? n.size() : r.below(n.size() + 1);
            switch (r.below(3)) {
              case 0: n.insert(at, 1, ch); break;
              case 1: if (at < n.size()) n[at] = ch; else n += ch; break;
              default: if (n.size() > 1) n.erase(std::min(at, n.size() - 1), 1);
            }
          }
          break;
        }
        case 8: { // a name or keyword spelled a little differently, or another one in its place
          std::vector<size_t> nm;
          for (size_t j = 0; j < v.size(); j++) if (isalpha((unsigned char)v[j][0]) || v[j][0] == '_') nm.push_back(j);
          if (nm.empty()) { v[i] = token(r); break; }
          std::string& n = v[nm[r.below(nm.size())]];
          switch (r.below(8)) {
            case 0: n[0] = (char)(islower((unsigned char)n[0]) ? toupper(n[0]) : tolower(n[0])); break;
            case 1: for (auto& ch : n) ch = (char)toupper((unsigned char)ch); break;
            case 2: for (auto& ch : n) ch = (char)tolower((unsigned char)ch); break;
            case 3: n += "_1x-"[r.below(4)]; break;
            case 4: if (n.size() > 1) n.pop_back(); break;
            case 5: n = "_" + n; break;
            case 6: if (n.size() > 1) n.erase(0, 1); break;
            default: n = v[nm[r.below(nm.size())]];
          }
          break;
        }
        default: { size_t j = std::min(v.size(), i + 1 + r.below(8)); v.erase(v.begin() + (long)i, v.begin() + (long)j); }
      }
    }
    t = join(v);
  } else if (kind < 19) {
    what = "byte mutations";
    t = base();
    for (int k = r.range(1, 4); k > 0 && !t.empty(); k--) {
      size_t i = r.below(t.size());
      switch (r.below(5)) {
        case 0: t.erase(i, 1); break;
        case 1: t[i] = (char)r.below(256); break;
        case 2: t.insert(i, 1, (char)r.below(256)); break;
        case 3: t.insert(i, 1, "()<>=;. 0e_"[r.below(11)]); break;
        default: t.resize(i); // truncated
      }
    }
  } else if (kind < 22) {
    what = "token soup";
    int n = r.range(1, 40);
    for (int i = 0; i < n; i++) { t += token(r); if (r.chance(.5)) t += ' '; }
    if (r.chance(.5)) t = "(assert a (" + t;
  } else if (kind == 22) {
    what = "random bytes";
    int n = r.range(1, 300);
    for (int i = 0; i < n; i++) t += (char)r.below(256);
  } else if (kind == 23) {
    what = "unbalanced and extreme nesting";
    static const char* part[] = {"(", "(not ", "(and ", "(always ", "(and x ", "((", "(or true ", "(until true ", "(define-formula a ", "(assert a ", ")", "(implies true "};
    std::string p = part[r.below(12)];
    int n = r.chance(.1) ? 100000 : r.range(1, 3000);
    t = r.chance(.3) ? "" : r.chance(.5) ? "(assert a " : "(define-formula x (> y 1)) (assert a ";
    for (int i = 0; i < n; i++) t += p;
    if (r.chance(.6)) {
      t += r.chance(.5) ? "true" : "(> x 1)";
      size_t m = r.chance(.8) ? (size_t)n : r.below((uint64_t)n + 2);
      t += std::string(m, ')');
      if (r.chance(.8)) t += ")";
    }
  } else {
    what = "specific faults";
    std::string pre = r.chance(.5) ? "(define-formula ok (> x 1))\n" : "(assert fine true) (define-formula ok (> x 1)) ";
    static const char* bad[] = {
        "(assert a (and (> x 1)))", "(assert a (or ok))", "(assert a (and))", "(assert a (not))", "(assert a (not ok ok))", "(assert a (implies ok))", "(assert a (implies ok ok ok))", "(assert a (iff ok))",
        "(assert a (xor ok ok ok))", "(assert a (until ok))", "(assert a (until ok ok ok))", "(assert a (always))", "(assert a (always ok ok))", "(assert a (eventually))", "(assert a (eventually ok ok))",
        "(assert a undefined)", "(assert a (and ok undefined))", "(assert a a)", "(define-formula r (not r))", "(assert a later) (define-formula later true)", "(define-formula ok (> y 1))", "(assert z ok) (assert z ok)",
        "(assert)", "(assert a)", "(assert a ok ok)", "(define-formula)", "(define-formula b)", "(define-formula b ok ok)", "(assert (> x 1))", "(assert 1 ok)", "()", "(ok)", "ok", "(assert a ())", "(assert a (()))",
        "(assert a (> x))", "(assert a (> 1))", "(assert a (> x y))", "(assert a (> 1 2))", "(assert a (> x 1 2))", "(assert a (> x 1 y))", "(assert a (= x 1))", "(assert a (== x 1))", "(assert a (>> x 1))", "(assert a (< = x 1))",
        "(assert a (> x -1))", "(assert a (> x +1))", "(assert a (> x 1.))", "(assert a (> x .5))", "(assert a (> x 1e))", "(assert a (> 1e))", "(assert a (> 1e x))", "(assert a (< 2.5E+y))", "(assert a (> 1.x))", "(assert a (> 1.e))", "(assert a (> 1e5))", "(assert a (> 1 e5 2))", "(assert a (> 1.5.2 x))", "(assert a (> x 1e+))", "(assert a (> x 1.5e))", "(assert a (> x 1e999))", "(assert a (> x 1.5e400))",
        "(assert a (> x 99999999999999999999))", "(assert a (> x 9223372036854775808))", "(assert a (> 99999999999999999999 x))", "(assert a (x > 1))", "(assert a (1 < x))", "(assert a ok) trailing", "(assert a ok))", "((assert a ok))",
        "(assert a (ok ok))", "(assert a (true false))", "(assert a ((> x 1) (> x 2)))", "(assert a ok", "(assert a (and ok ok)", "(assert a ok) (", "(assert a ok) )", "assert a ok", "(assert a ok) ; fine\n x", "(asserta ok)", "(ASSERT a ok)",
        "(define-formulab ok)", "(define formula b ok)", "(assert a [ok])", "(assert a (always[0,1] ok))", "(assert a (always [0,1] ok))", "(assert a (always (0 1) ok))", "(assert a-b ok)", "(assert a \"ok\")", "(assert a (and ok, ok))",
        "(assert a (> x 1)) \x01", "\xef\xbb\xbf(assert a ok)", "(assert a ok) /* */", "(assert a (> x 0x10))", "(assert a (> x 1 ))(", "(assert a (< x 1,5))", "(assert a (and ok ok) ok)", "(define-formula b (and ok ok) (or ok ok))",
        "(assert true)", "(assert a (not not))", "(assert a (and and and))", "(assert a (or (or) ok))", "(assert a TRUE)", "(assert a (> x inf))", "(assert a (> x nan))", "(assert a (not (not (not))))"};
    t = pre + bad[r.below(sizeof bad / sizeof *bad)];
    if (r.chance(.2)) t += "\n(assert end true)";
    if (r.chance(.05)) t.insert(r.below(t.size()), 1, '\0');
  }
  if (r.chance(.003)) { // far from the beginning
#ifdef VH_SANITIZED
    size_t n = (size_t)r.range(10000, 200000);
#else
    size_t n = r.chance(.5) ? (size_t)r.range(10000, 300000) : (size_t)(1 << r.range(16, 23)) + (size_t)r.range(-2, 200);
#endif
    std::string pad = r.chance(.5) ? std::string(n, " \n\t"[r.below(3)]) : ";" + std::string(n, 'p') + "\n";
    if (r.chance(.5)) t = base() + pad + t;
    else {
      static const char* tail[] = {"junk", ")", "(", "assert", "1", "(assert a)", "\"", ".", "(assert z_ undefined_)", "true", "()", "x\n", "-"};
      t = base() + pad + tail[r.below(13)];
    }
    c.count("long_texts");
  }
  c.desc(std::string(what) + ": " + (t.size() < 3000 ? t : t.substr(0, 3000) + "... (" + std::to_string(t.size()) + " bytes)"));
  Spec want;
  std::string why;
  auto o = refparse::read(t, want, why);
  std::unique_ptr<stl::Specification> got;
  bool threw = false;
  std::string msg;
  try {
    got = parse(t, r.chance(.5));
  } catch (const std::exception& e) {
    threw = true;
    msg = e.what();
  } catch (const Violation&) {
    throw;
  } catch (...) {
    c.fail("foreign-exception", "refused by throwing something that is not a standard exception");
  }
  c.count(std::string("texts_") + (o == refparse::GOOD ? "well_formed" : o == refparse::BAD ? "malformed" : "undecided"));
  if (o == refparse::BAD && !threw) {
    std::string m;
    for (auto& [n, e] : got->formulas) m += "\n  formula " + n + " = " + text(e);
    for (auto& [n, e] : got->assertions) m += "\n  assertion " + n + " = " + text(e);
    c.fail("accepted", "malformed text (" + why + ") was accepted as" + m);
  }
  if (o == refparse::GOOD) {
    if (threw) c.fail("refused", "well-formed text was refused: " + msg);
    std::map<const F*, size_t> sizes;
    same_spec(c, *got, want);
  }
  if (o == refparse::UNDECIDED && !threw && want.formulas.size() + want.assertions.size()) same_spec(c, *got, want);
  // a refusal leaves nothing behind
  if (r.chance(.1)) {
    auto s = stl::parser::from_string("(define-formula ok (and (> x 1.5) (<= 2 y))) (assert a ok)");
    Spec w;
    refparse::read("(define-formula ok (and (> x 1.5) (<= 2 y))) (assert a ok)", w, why);
    same_spec(c, *s, w);
    c.count("parses_after_a_refusal");
  }
  c.nontrivial = o == refparse::BAD;
  c.hash = hash_str(t);
}
} // namespace vh
