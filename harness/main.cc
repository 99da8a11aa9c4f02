// Driver of one monitor: runs cases [from, from+cases) of one seed.
//   exit 0  no violation     exit 1  violation ("FAIL" on stdout)
//   exit 3  harness error    anything else: crash, sanitizer report or hang (case index in --progress)
#include "common.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

using namespace vh;

static volatile uint64_t* g_progress = nullptr;

#ifdef VH_EDGES
// The library's objects are compiled with -fsanitize-coverage=trace-pc: which of its basic blocks were
// reached, and how many were executed.
static unsigned char g_edges[1 << 20];
uint64_t vh_steps = 0;
extern "C" __attribute__((no_sanitize("all"), no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
  auto pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&g_edges;
  pc = (pc ^ (pc >> 20)) & (sizeof g_edges - 1);
  if (!g_edges[pc]) g_edges[pc] = 1;
  vh_steps++;
}
#endif

static void on_cpu_limit(int) {
  static const char m[] = "CPU-LIMIT: case used too much CPU time\n";
  ssize_t r = write(2, m, sizeof m - 1);
  (void)r;
  _exit(7);
}

static void arm(int seconds) {
  struct itimerval it {};
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &it, nullptr);
}

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}

int main(int argc, char** argv) {
  uint64_t seed = 1, from = 0, cases = 100;
  int limit = 20;
  bool thorough = false, verbose = false;
  std::string out, progress;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(v());
    else if (a == "--from") from = std::stoull(v());
    else if (a == "--cases") cases = std::stoull(v());
    else if (a == "--out") out = v();
    else if (a == "--progress") progress = v();
    else if (a == "--cpu-limit") limit = std::stoi(v());
    else if (a == "--thorough") thorough = true;
    else if (a == "--verbose") verbose = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  uint64_t dummy = 0;
  g_progress = &dummy;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 16)) return 3;
    void* p = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) return 3;
    g_progress = (volatile uint64_t*)p;
    close(fd);
  }
  signal(SIGPROF, on_cpu_limit);

  std::map<std::string, uint64_t> counters;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
  uint64_t evals = 0, nontriv = 0, skipped = 0;
  int rc = 0;
  std::string fail_json;
  setup(thorough);
  for (uint64_t i = from; i < from + cases; i++) {
    *g_progress = i + 1;
    arm(limit);
    Ctx c;
    c.seed = seed;
    c.index = i;
    c.thorough = thorough;
#ifdef VH_SANITIZED
    c.sanitized = true;
#endif
    c.rng = Rng(mix(seed * 0x100000001b3ULL) ^ mix(i * 0x9e3779b1ULL + 77));
    c.counters = &counters;
    std::string key, msg;
    try {
      run_case(c);
      evals++;
      if (c.nontrivial) { nontriv++; hashes.push_back(c.hash); }
      if (samples.size() < 2 && c.nontrivial && c.describe.size() < 1500) samples.push_back(c.describe);
    } catch (const Skip&) {
      skipped++;
    } catch (const Violation& v) {
      key = v.key; msg = v.msg;
    } catch (const std::exception& e) {
      key = "unexpected-exception";
      msg = std::string("an exception came out of a call that must succeed: ") + e.what();
    }
    if (verbose) printf("case %llu:\n%s\n", (unsigned long long)i, c.describe.c_str());
    if (!key.empty()) {
      printf("FAIL seed=%llu case=%llu key=%s\n%s\n--- case ---\n%s\n", (unsigned long long)seed,
             (unsigned long long)i, key.c_str(), msg.c_str(), c.describe.c_str());
      fail_json = "{\"case\":" + std::to_string(i) + ",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(msg) +
                  "\",\"describe\":\"" + esc(c.describe) + "\"}";
      rc = 1;
      break;
    }
  }
  arm(0);
  *g_progress = 0;
  finish(counters);
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"rule\":\"%s\",\"counters\":{",
            (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)skipped, esc(RULE).c_str());
    bool first = true;
    for (auto& [k, v] : counters) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
    fprintf(f, "],\"fail\":%s}\n", fail_json.empty() ? "null" : fail_json.c_str());
    fclose(f);
    auto dump = [&](const char* ext, const std::vector<uint64_t>& v) {
      FILE* h = fopen((out + ext).c_str(), "wb");
      if (!h) return;
      if (!v.empty()) fwrite(v.data(), 8, v.size(), h);
      fclose(h);
    };
    dump(".hashes", hashes);
#ifdef VH_EDGES
    std::vector<uint64_t> e;
    for (size_t i = 0; i < sizeof g_edges; i++) if (g_edges[i]) e.push_back(i);
    dump(".edges", e);
#endif
  }
  return rc;
}
