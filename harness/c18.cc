#include "speccheck.hpp"
#include <locale>
#include <clocale>
#include <sys/stat.h>
#include <sys/wait.h>
// C18: well-formed specifications are read as written.
namespace vh {
const char* RULE =
    "specifications generated from formulas (all operators, references, constants first, numbers of every form) with random layout, comments, redundant parentheses, nesting to 900, thousands of terms, "
    "read under different C and C++ locales, from buffers with no terminator; compared node by node with the formulas, also by evaluation; non-trivial: at least one reference or 3 operators";
static bool have_de = false;
void setup(bool) {
  // a locale with a decimal comma, if it can be made here
  if (const char* d = getenv("VH_WORK")) {
    std::string dir = std::string(d) + "/locale";
    mkdir(dir.c_str(), 0700);
    std::string cmd = "localedef -i de_DE -f UTF-8 '" + dir + "/de_DE.UTF-8' >/dev/null 2>&1";
    if (system(cmd.c_str()) == 0) {
      setenv("LOCPATH", dir.c_str(), 1);
      have_de = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
      if (have_de) have_de = strtod("1,5", nullptr) == 1.5;
      setlocale(LC_ALL, "C");
    }
  }
}
void finish(std::map<std::string, uint64_t>& k) { k["max_decimal_comma_locale"] = have_de; }
using namespace gen;
using namespace speccheck;

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

struct Locales {
  std::locale old;
  bool c = false, cc = false;
  Locales(Ctx& ctx, int which) : old(std::locale()) {
    if ((which & 1) && have_de) { c = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr; ctx.count("parsed_under_de_DE", c); }
    if (which & 2) { std::locale::global(std::locale(std::locale::classic(), new Comma)); cc = true; ctx.count("parsed_under_cxx_comma_locale"); }
    if (cc && c) setlocale(LC_ALL, "de_DE.UTF-8");
  }
  ~Locales() {
    if (cc) std::locale::global(old);
    setlocale(LC_ALL, "C");
  }
};

void run_case(Ctx& c) {
  Rng& r = c.rng;
  SpecGen g(r);
  const int kind = (int)r.below(40);
  g.w.paren = r.chance(.3) ? .3 : .05;
  if (r.chance(.02)) { // long names
    g.signals[0] = std::string((size_t)r.range(100, 5000), 'n');
  }
  if (kind == 0) { // deep
    int n = r.chance(.3) ? r.range(850, 897) : r.range(50, 700);
    FP f = g.atom();
    g.w.paren = 0;
    Kind only = r.chance(.5) ? (Kind)(NOT + (int)r.below(6)) : CONST;
    for (int i = 0; i < n; i++) {
      Kind k = only != CONST ? only : (Kind)(NOT + (int)r.below(6));
      g.keep.push_back(f);
      if (k == NOT || k == ALW || k == EV) f = mk(k, {f});
      else if (r.chance(.5)) f = mk(k, {f, g.atom()});
      else f = mk(k, {g.atom(), f});
    }
    g.keep.push_back(f);
    if (f->k == CONST) throw Skip{};
    auto n1 = g.fresh({});
    g.w.p("("); g.w.w("assert"); g.w.w(n1); g.w.term(f); g.w.p(")");
    g.spec.assertions[n1] = f;
    c.count("deep_specifications");
  } else if (kind == 1) { // parentheses only
    int n = r.chance(.3) ? r.range(880, 897) : r.range(1, 880);
    FP f = g.atom();
    g.w.paren = 0;
    auto n1 = g.fresh({});
    g.w.p("("); g.w.w("define-formula"); g.w.w(n1);
    for (int i = 0; i < n; i++) g.w.p("(");
    g.w.term(f);
    for (int i = 0; i < n; i++) g.w.p(")");
    g.w.p(")");
    g.spec.formulas[n1] = f;
    c.count("deep_specifications");
  } else if (kind == 2) { // wide
    std::vector<FP> v;
    int n = r.range(20, 1500);
    for (int i = 0; i < n; i++) v.push_back(g.atom());
    g.command(mk(r.chance(.5) ? AND : OR, v), true);
    if (g.spec.assertions.empty()) throw Skip{};
    c.count("wide_specifications");
  } else if (kind == 3) { // many definitions, each using the one before
    FP f = g.atom();
    int n = r.range(20, 300);
    for (int i = 0; i < n; i++) {
      std::string nm = "f" + std::to_string(i);
      g.w.p("("); g.w.w("define-formula"); g.w.w(nm);
      g.w.term(f, f->k == CONST);
      g.w.p(")");
      g.spec.formulas[nm] = f;
      if (f->k != CONST) g.w.names[f.get()] = nm;
      g.keep.push_back(f);
      f = r.chance(.5) ? mk(NOT, {f}) : r.chance(.5) ? mk(AND, {f, g.atom()}) : mk(UNTIL, {g.atom(), f});
    }
    g.keep.push_back(f);
    c.count("long_specifications");
  } else if (kind == 4 && r.chance(.3)) { // many definitions and assertions of their own
#ifdef VH_SANITIZED
    const int most = 1200;
#else
    const int most = r.chance(.03) ? 70000 : 3000;
#endif
    for (int i = 0, n = r.range(most / 20, most); i < n; i++) {
      FP f = g.atom();
      std::string nm = (r.chance(.5) ? "n" : "_") + std::to_string(i);
      const bool a = r.chance(.4);
      g.w.p("("); g.w.w(a ? "assert" : "define-formula"); g.w.w(nm); g.w.term(f, f->k == CONST); g.w.p(")");
      (a ? g.spec.assertions : g.spec.formulas)[nm] = f;
    }
    c.count("large_specifications");
  } else {
    int n = r.range(0, 6);
    for (int i = 0; i < n; i++) g.command(g.make(r.range(0, 5)), r.chance(.4));
    if (r.chance(.02)) { // the same names for a formula and an assertion
      for (auto& [nm, f] : Spec(g.spec).formulas)
        if (!g.spec.assertions.count(nm)) { g.w.p("("); g.w.w("assert"); g.w.w(nm); g.w.w(nm); g.w.p(")"); g.spec.assertions[nm] = f; }
    }
    if (r.chance(.02)) { std::string big = "; " + std::string((size_t)r.range(1000, 100000), 'x') + "\n"; g.w.o = big + g.w.o; }
  }
  g.w.sp();
  if (r.chance(.1)) g.w.o += "; no newline at the end";
  const std::string& t = g.w.o;
  c.desc(t.size() < 4000 ? t : t.substr(0, 4000) + "...");
  // the harness's own reader agrees with the generator
  {
    Spec again;
    std::string why;
    auto o = refparse::read(t, again, why);
    if (o != refparse::GOOD) throw std::logic_error("harness: the reference reader refuses generated text: " + why);
  }
  int loc = r.chance(.3) ? r.range(1, 3) : 0;
  std::unique_ptr<stl::Specification> got;
  {
    Locales l(c, loc);
    try {
      got = parse(t, r.chance(.5));
    } catch (const std::exception& e) {
      c.fail("refused", std::string("a well-formed specification was refused: ") + e.what());
    }
  }
  if (!got) c.fail("null", "parsing returned a null pointer");
  c.count("bytes_parsed", t.size());
  same_spec(c, *got, g.spec);
  // and by evaluation
  if (kind >= 4 && r.chance(.25) && !got->formulas.empty()) {
    TraceG tr;
    tr.kind = "for evaluation";
    std::set<std::string> ns;
    for (auto& s : g.signals) if (ns.insert(s).second) {
      Points p;
      double t0 = 0;
      for (int i = 0; i < 5; i++) { p.push_back({t0, (double)r.range(-10, 120)}); t0 += r.range(1, 3); }
      p.push_back({30, 1});
      tr.names.push_back(s);
      tr.sig.push_back(p);
    }
    auto& [n, e] = *std::next(got->formulas.begin(), (long)r.below(got->formulas.size()));
    const FP& f = g.spec.formulas.at(n);
    if (f->size() < 60) {
      try {
        Pwl want = eval_ref(f, tr);
        Pwl lib = eval_lib(c, e, tr.build());
        Tol tol;
        for (auto& s : tr.sig) tol.add(pwl(s));
        tol.add(want);
        same_function(c, "meaning", lib, want, tol.get((R)(4 * f->size())), "the parsed formula " + n);
        c.count("formulas_evaluated");
      } catch (const ref::TooBig&) {}
    }
  }
  size_t ops = 0;
  for (auto* m : {&g.spec.formulas, &g.spec.assertions}) for (auto& [n, f] : *m) ops += !f->args.empty();
  c.nontrivial = !g.w.names.empty() || ops >= 3 || kind < 4;
  c.hash = hash_str(t);
}
} // namespace vh
