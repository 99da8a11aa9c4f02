// Text of specifications: generation from formulas, with random layout.
#pragma once
#include "gen.hpp"

namespace spec {
using namespace gen;

inline std::string ident(Rng& r) {
  static const char* words[] = {"x", "y", "phi1", "a_b", "Alpha", "_u", "x1", "trueish", "falsey", "andy", "orb", "not_", "untilx", "alwaysX", "G", "F", "U", "definef", "assertion", "e10", "inf", "nan",
                                "notable", "nota", "oral", "truex", "iffy", "xorz", "always1", "alwaysy", "eventuallyz", "untilq", "impliesx", "asserted", "define1"};
  if (r.chance(.6)) return words[r.below(sizeof words / sizeof *words)];
  std::string s;
  const char* first = "abcxyzABCXYZ_";
  const char* rest = "abcxyzABCXYZ_0123456789";
  s += first[r.below(13)];
  int n = r.chance(.1) ? r.range(20, 80) : r.chance(.03) ? r.range(81, 600) : r.range(0, 6);
  for (int i = 0; i < n; i++) s += rest[r.below(23)];
  return s;
}

// Space between tokens: at least one separator if `must`.
inline std::string sep(Rng& r, bool must) {
  std::string s;
  auto comment = [&] {
    static const char* c[] = {"; comment\n", ";\n", "; (assert x y)\r\n", ";; ( ) ; < 5 x\n", "; \xc3\xa9\xff caf\xc3\xa9\n", "; unbalanced ((( \n"};
    if (r.chance(.7)) return std::string(c[r.below(6)]);
    std::string s = ";"; // anything up to the end of the line
    for (int n = r.range(0, 12); n > 0; n--) { char x = (char)r.below(256); s += x == '\n' ? '\r' : r.chance(.2) ? "\r\t;()\0\x1a\v"[r.below(8)] : x; }
    return s + "\n";
  };
  auto ws = [&] {
    static const char* c[] = {" ", " ", " ", "\t", "\n", "\r\n", "  ", "\v", "\f", "\n\n"};
    return std::string(c[r.below(10)]);
  };
  if (must) s += r.chance(.9) ? ws() : comment();
  while (r.chance(.15)) s += r.chance(.8) ? ws() : comment();
  return s;
}

struct Number { std::string text; double value; };

inline Number number(Rng& r) {
  std::string t;
  auto digits = [&](int n) { std::string s; for (int i = 0; i < n; i++) s += (char)('0' + r.below(10)); return s; };
  switch (r.below(10)) {
    case 0: {
      if (!r.chance(.25)) { t = std::to_string(r.range(0, 20)); break; }
      // on, or a little off, the middle between two neighbouring doubles
      double d = std::fabs(r.real(.001, 100000));
      if (r.chance(.3)) d = r.range(1, 100);
      long double m = ((long double)d + std::nextafter(d, r.chance(.5) ? 0. : 1e300)) / 2;
      char b[200];
      snprintf(b, sizeof b, "%.110Lf", m); // exact
      t = b;
      while (t.back() == '0') t.pop_back();
      if (t.back() == '.') t += '0';
      else if (r.chance(.4)) t += digits(r.range(0, 3)) + std::string((size_t)r.range(0, 30), '0') + "1";
      else if (r.chance(.7)) { t.back()--; t += std::string((size_t)r.range(1, 30), '9'); }
      break;
    }
    case 1: t = std::to_string(r.range(0, 20)) + "." + digits(r.range(1, 3)); break;
    case 2: t = digits(r.range(1, 18)); break;
    case 3: t = digits(r.range(1, 5)) + "." + digits(r.range(1, 20)); break;
    case 4: t = digits(r.range(1, 3)) + "." + digits(r.range(1, 6)) + (r.chance(.5) ? "e" : "E") + (r.chance(.3) ? "+" : r.chance(.5) ? "-" : "") + std::to_string(r.range(0, 200)); break;
    case 5: t = digits(r.range(1, 3)) + (r.chance(.5) ? "." : "") + (r.chance(.5) ? "e" : "E") + (r.chance(.3) ? "+" : r.chance(.5) ? "-" : "") + std::to_string(r.range(0, 30)); break;
    case 6: { static const char* c[] = {"0", "00", "007", "9223372036854775807", "9007199254740993", "0.0", "0.1", "1.7976931348623157e308", "2.2250738585072014e-308", "0.30000000000000004", "123456789012345678", "1e0", "1e22", "1e23", "8.5", "0e0", "9007199254740993.0", "0.500000000000000166533453693773481063544750213623046875"};
              t = c[r.below(18)]; break; }
    case 7: { char b[64]; snprintf(b, sizeof b, "%.17g", std::fabs(r.real(0, 1000))); t = b; break; }
    case 8: { char b[64]; snprintf(b, sizeof b, "%.17e", std::fabs(r.real(0, 1000) * std::pow(10., r.range(-30, 30)))); t = b; break; }
    default: t = std::to_string(r.range(0, 100));
  }
  // digits only: an integer, read exactly as a long and then converted; otherwise a real, nearest double
  Number n{t, 0};
  bool integer = t.find_first_not_of("0123456789") == std::string::npos;
  if (integer) {
    // exact as long (at most 19 digits here), then rounded
    unsigned __int128 v = 0;
    for (char ch : t) v = v * 10 + (unsigned)(ch - '0');
    if (v > (unsigned __int128)std::numeric_limits<long>::max()) { n.text = "5"; n.value = 5; }
    else n.value = (double)(long)v;
  } else {
    n.value = strtod(t.c_str(), nullptr); // the harness runs in the "C" locale unless it says otherwise
  }
  return n;
}

} // namespace spec
