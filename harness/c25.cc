#include "speccheck.hpp"
#include <filesystem>
#include <locale>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
// C25: parsing a file equals parsing its contents.
namespace vh {
const char* RULE =
    "well-formed, damaged and garbage specifications with every kind of line ending, no final newline, NUL and control bytes, a byte order mark, empty, blank, padded to page boundaries or up to a megabyte, written to files with odd names and reached "
    "through relative paths and links; from_file compared with from_string on the same bytes, formula by formula, after the file is gone; paths that cannot be read; non-trivial: at least one formula, or a refusal of a non-empty file";
static std::string dir;
void setup(bool) {
  const char* w = getenv("VH_WORK");
  if (!w || !*w) { fprintf(stderr, "harness: VH_WORK is not set\n"); exit(3); }
  dir = std::string(w) + "/files";
  mkdir(dir.c_str(), 0700);
  if (chdir(dir.c_str())) { fprintf(stderr, "harness: cannot use %s\n", dir.c_str()); exit(3); }
  // files left open show up as refusals
  struct rlimit l {64, 64};
  setrlimit(RLIMIT_NOFILE, &l);
}
void finish(std::map<std::string, uint64_t>&) {
  if (chdir("/")) return;
  std::error_code ec;
  if (!dir.empty()) std::filesystem::remove_all(dir, ec);
}
using namespace speccheck;

struct Outcome2 {
  bool refused = false;
  std::map<std::string, uint64_t> what;
  size_t formulas = 0;
  std::string msg;
  std::unique_ptr<stl::Specification> spec;
  void digest() {
    Digest d;
    what.clear();
    if (!spec) return;
    for (auto& [n, e] : spec->formulas) what["formula " + n] = d.of(e);
    for (auto& [n, e] : spec->assertions) what["assertion " + n] = d.of(e);
    formulas = what.size();
  }
};
template <typename Fn>
static Outcome2 outcome(Ctx& c, const char* how, Fn&& fn) {
  Outcome2 o;
  try {
    o.spec = fn();
    if (!o.spec) c.fail("null", std::string(how) + " returned a null pointer");
  } catch (const Violation&) {
    throw;
  } catch (const std::exception& e) {
    o.refused = true;
    o.msg = e.what();
  } catch (...) {
    c.fail("foreign-exception", std::string(how) + " threw something that is not a standard exception");
  }
  return o;
}
static void write_file(const std::string& p, const std::string& t) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(t.data(), 1, t.size(), f) != t.size() || fclose(f)) throw std::logic_error("harness: cannot write " + p);
}
static std::string read_file(const std::string& p) {
  std::string o;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return "(gone)";
  char b[65536];
  for (size_t n; (n = fread(b, 1, sizeof b, f));) o.append(b, n);
  fclose(f);
  return o;
}

static void replace_all(std::string& s, const std::string& a, const std::string& b) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    if (s.compare(i, a.size(), a) == 0) { o += b; i += a.size(); }
    else o += s[i++];
  }
  s = o;
}

void run_case(Ctx& c) {
  Rng& r = c.rng;
  SpecGen g(r);
  for (int i = 0, n = r.range(0, 6); i < n; i++) g.command(g.make(r.range(0, 4)), r.chance(.4));
  std::string t = g.w.o;
  std::string kind = "as written";
  switch (r.below(18)) {
    case 0: replace_all(t, "\r\n", "\n"); replace_all(t, "\n", "\r\n"); kind = "CRLF"; break;
    case 1: replace_all(t, "\r\n", "\r"); replace_all(t, "\n", "\r"); kind = "CR"; break;
    case 2: t += "; no newline at the end"; kind = "comment without newline"; break;
    case 3: while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back(); kind = "no final newline"; break;
    case 4: t.insert(r.below(t.size() + 1), 1, '\0'); kind = "NUL inside"; break;
    case 5: t += std::string(r.below(5) + 1, '\0'); kind = "NULs at the end"; break;
    case 6: t = "\xef\xbb\xbf" + t; kind = "byte order mark"; break;
    case 7: t.insert(r.below(t.size() + 1), 1, "\x1a\x04\x0c\x7f\xff"[r.below(5)]); kind = "control byte"; break;
    case 8: t.resize(r.below(t.size() + 1)); kind = "truncated"; break;
    case 9: t.clear(); kind = "empty"; break;
    case 10: t = std::string(r.below(20), " \n\t\r"[r.below(4)]); if (r.chance(.5)) t += ";"; kind = "blank"; break;
    case 11: { t.clear(); for (size_t n = r.below(300); n > 0; n--) t += (char)r.below(256); kind = "random bytes"; break; }
    case 12: case 13: { // up to a page boundary, within a byte or two
      size_t page = 4096 * (size_t)(1 + r.below(r.chance(.1) ? 40 : 3)), want = page + r.below(5) - 2;
      if (t.size() + 2 > want) break;
      bool front = r.chance(.5);
      std::string pad = r.chance(.5) ? std::string(want - t.size(), ' ') : ";" + std::string(want - t.size() - 2, 'p') + "\n";
      t = front ? pad + t : t + pad;
      if (!front && r.chance(.3)) t.back() = ')';
      kind = "page boundary";
      break;
    }
    case 14: { if (!r.chance(.1)) break; size_t many = (size_t)r.range(100000, 1000000);
#ifndef VH_SANITIZED
      if (r.chance(.3)) many = (size_t)(1 << r.range(16, 24)) + (size_t)r.range(-2, 2);
      if (r.chance(.03)) many = (size_t)r.range(16000000, 36000000);
#endif
      if (r.chance(.6)) t += "\n;" + std::string(many, 'x') + "\n(assert last_one true)\n";
      else if (r.chance(.5)) { t += std::string(many, " \n\t"[r.below(3)]) + "(assert last_one true)"; if (r.chance(.3)) t += "junk"; }
      else for (size_t k = 0; t.size() < std::min(many, (size_t)1500000) / 3; k++) t += "(assert many_" + std::to_string(k) + " (> x " + std::to_string(k) + "))\n";
      kind = "large"; break; }
    case 15: t += "junk"; kind = "junk at the end"; break;
    default: break;
  }
  c.desc(kind + " (" + std::to_string(t.size()) + " bytes): " + (t.size() < 2500 ? t : t.substr(0, 2500) + "..."));

  // where it is
  static const char* names[] = {"spec.stl", "a b.stl", "sp\xc3\xa9" "c", "no_extension", "-", "%s%n", "x;y(z)", "..stl", "\n", "assert"};
  std::string base = r.chance(.6) ? names[r.below(10)] : "spec" + std::to_string(r.below(3));
  if (r.chance(.05)) base = std::string(200, 'n');
  std::string path = dir + "/" + base;
  write_file(path, t);
  struct Cleanup { std::vector<std::string> p; ~Cleanup() { for (auto& x : p) unlink(x.c_str()); } } cleanup{{path}};
  std::string via = path;
  switch (r.below(6)) {
    case 0: via = "./" + base; break;
    case 1: if (base[0] != '\n') via = base; break;
    case 2: { via = dir + "/link"; unlink(via.c_str()); if (symlink(path.c_str(), via.c_str())) throw std::logic_error("harness: symlink"); cleanup.p.push_back(via); break; }
    case 3: via = dir + "//../files/" + base; break;
    default: break;
  }
  if (r.chance(.3)) chmod(path.c_str(), 0400); // reading needs no more
  struct stat before {}, after {};
  stat(path.c_str(), &before);
  auto fromstr = outcome(c, "from_string", [&] { return stl::parser::from_string(t); });
  auto fromfile = outcome(c, "from_file", [&] { return r.chance(.5) ? stl::parser::from_file(via) : stl::parser::from_file(std::filesystem::path(via)); });
  stat(path.c_str(), &after);
  if (read_file(path) != t || before.st_size != after.st_size || before.st_mtim.tv_nsec != after.st_mtim.tv_nsec || before.st_mtim.tv_sec != after.st_mtim.tv_sec || before.st_ino != after.st_ino || before.st_mode != after.st_mode)
    c.fail("file-modified", "parsing the file modified it");
  // the same file with other contents, of the same length perhaps
  if (r.chance(.15)) {
    std::string u = t;
    std::vector<size_t> at;
    for (size_t k = 0; k < u.size() && at.size() < 5000; k++) if (isdigit((unsigned char)u[k])) at.push_back(k);
    if (!at.empty() && r.chance(.8)) { size_t k = at[r.below(at.size())]; u[k] = (char)('0' + (u[k] - '0' + 1 + (int)r.below(9)) % 10); }
    else if (r.chance(.5) && !u.empty()) u[r.below(u.size())] = " ();x"[r.below(5)];
    else u += "(assert one_more true)";
    chmod(path.c_str(), 0600);
    write_file(path, u);
    auto a = outcome(c, "from_string", [&] { return stl::parser::from_string(u); });
    auto b = outcome(c, "from_file", [&] { return stl::parser::from_file(via); });
    a.digest();
    b.digest();
    if (a.refused != b.refused || a.what != b.what) c.fail("file-rewritten", "after the file was rewritten, the file and its contents give different specifications");
    c.count("files_rewritten");
  }
  // the result does not depend on the file any more
  chmod(path.c_str(), 0600);
  if (r.chance(.5)) write_file(path, std::string(t.size(), '#'));
  unlink(path.c_str());
  fromstr.digest();
  fromfile.digest();
  c.count(fromstr.refused ? "files_malformed" : "files_well_formed");
  c.count("bytes_read", t.size());
  if (fromstr.refused != fromfile.refused)
    c.fail(fromfile.refused ? "file-refused" : "file-accepted", std::string("parsing the contents ") + (fromstr.refused ? "is refused (" + fromstr.msg + "), but the file is accepted" : "succeeds, but the file is refused: " + fromfile.msg));
  if (fromstr.what != fromfile.what) {
    std::string m;
    for (auto& [n, h] : fromstr.what) if (!fromfile.what.count(n)) m += "\n missing from the file's: " + n; else if (fromfile.what[n] != h) m += "\n differs: " + n;
    for (auto& [n, h] : fromfile.what) if (!fromstr.what.count(n)) m += "\n only from the file: " + n;
    c.fail("file-differs", "the file and its contents give different specifications" + m);
  }
  c.count("formulas_compared", fromstr.formulas);

  // paths that cannot be read
  if (r.chance(.15)) {
    std::string bad;
    switch (r.below(8)) {
      case 0: bad = dir + "/missing"; break;
      case 1: bad = dir; break;
      case 2: bad = ""; break;
      case 3: bad = dir + "/dangling"; unlink(bad.c_str()); if (symlink((dir + "/nothing").c_str(), bad.c_str())) throw std::logic_error("harness: symlink"); cleanup.p.push_back(bad); break;
      case 4: bad = dir + "/loop"; unlink(bad.c_str()); if (symlink(bad.c_str(), bad.c_str())) throw std::logic_error("harness: symlink"); cleanup.p.push_back(bad); break;
      case 5: write_file(path, "(assert a true)"); bad = path + "/inside"; break;
      case 6: bad = dir + "/" + std::string(300, 'n'); break;
      default: bad = "(assert a true)"; break; // a path, not a specification
    }
    c.desc("unreadable path " + bad);
    auto o = outcome(c, "from_file", [&] { return stl::parser::from_file(bad); });
    if (!o.refused) c.fail("unreadable-accepted", "from_file accepted a path that cannot be read: " + bad);
    if (bad.find("missing") != std::string::npos && access(bad.c_str(), F_OK) == 0) c.fail("file-modified", "from_file made the missing file");
    c.count("unreadable_paths_refused");
  }
  c.nontrivial = fromstr.formulas > 0 || (fromstr.refused && !t.empty());
  c.hash = hash_str(t, hash_str(base));
}
} // namespace vh
