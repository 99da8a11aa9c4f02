#!/usr/bin/env python3
"""Runs the runtime monitors of one property against the current tree of /repo.

  check.py C01 [--tier quick|thorough] [--seed N]
  check.py --replay replays/<file>.json        (re-runs one recorded failure)

exit 0: held on everything explored; 1: violation (VIOLATION line); 2: error of the check.
"""
import array, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
CORES = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from checks import CHECKS, BUILDS  # noqa: E402


class CheckError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---- building ------------------------------------------------------------------------------

def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()


def repo_files():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(root, f) for f in files]
    return out


def compile_one(src, obj, flags, cxx="g++"):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [cxx, "-std=gnu++17", "-fpermissive", "-w", "-DFMT_HEADER_ONLY"] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise CheckError("does not compile: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    os.replace(tmp, obj)


def build(prop, names):
    """Builds the monitor of `prop` in every build of `names`; returns {name: binary}."""
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    src = [f for f in repo_files() if f.endswith((".cc", ".cpp", ".cxx"))]
    parser = [f for f in src if "/parser/" in f]
    libsrc = src if cfg.get("parser") else [f for f in src if f not in parser]
    rhash = tree_hash(repo_files())
    hhash = tree_hash(glob.glob(HARNESS + "/*"))
    inc = sorted({"-I" + os.path.dirname(f) for f in repo_files() if "/include/" not in f})
    jobs, bins = [], {}
    for n in names:
        b = BUILDS[n]
        objs = []
        # The slowest first.
        for f in sorted(libsrc, key=lambda f: (f not in parser, -os.path.getsize(f))):
            fl = ["-I" + REPO + "/src/include"] + inc + b["flags"] + b.get("lib_flags", [])
            if f in parser:
                fl += b.get("parser_flags", [])
            key = hashlib.sha256((rhash + f + " ".join(fl)).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            jobs.append((f in parser, f, o, fl))
        for f in cfg.get("sources", [prop.lower() + ".cc"]) + ["main.cc"]:
            f = os.path.join(HARNESS, f)
            fl = ["-I" + REPO + "/src/include"] + b["flags"] + b.get("harness_flags", []) + cfg.get("flags", [])
            key = hashlib.sha256((rhash + hhash + f + " ".join(fl)).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            jobs.append((False, f, o, fl))
        bins[n] = (os.path.join(BUILD, "%s.%s" % (prop, n)), objs, b)
    jobs.sort(key=lambda j: not j[0])
    seen, todo = set(), []
    for _, f, o, fl in jobs:
        if o not in seen:
            seen.add(o)
            todo.append((f, o, fl))
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in [ex.submit(compile_one, *t) for t in todo]:
            r.result()
        def link(n):
            exe, objs, b = bins[n]
            cmd = ["g++"] + [f for f in b["flags"] if f.startswith(("-fsanitize", "-g", "-O"))] + objs + ["-o", exe, "-lpthread"] + cfg.get("libs", [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode:
                raise CheckError("does not link: " + p.stdout[-4000:])
            return n, exe
        return dict(ex.map(link, names))


# ---- running -------------------------------------------------------------------------------

ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "allocator_may_return_null=0:hard_rss_limit_mb=6000:handle_abort=1:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=96",
}


def run_shard(exe, b, cfg, seed, start, cases, tier, work, wall, patience=1):
    """One process. Returns (status, info): ok / fail / crash / hang / error."""
    os.makedirs(work, exist_ok=True)
    out, prog = os.path.join(work, "out.json"), os.path.join(work, "progress")
    for f in (out, prog, out + ".hashes", out + ".edges"):
        if os.path.exists(f):
            os.remove(f)
    env = dict(os.environ)
    env.update(ENV)
    env.update(b.get("env", {}))
    env["TMPDIR"] = work
    env["VH_WORK"] = work
    env["VH_HERE"] = HERE
    cmd = list(b.get("wrap", [])) + [exe, "--seed", str(seed), "--from", str(start), "--cases", str(cases), "--out", out,
                               "--progress", prog, "--cpu-limit", str(b.get("cpu_limit", 20) * cfg.get("cpu_factor", 1) * patience)]
    if tier == "thorough":
        cmd.append("--thorough")

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if b.get("limit_as", False):
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    with open(os.path.join(work, "stdout"), "wb") as so, open(os.path.join(work, "stderr"), "wb") as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, cwd=work, preexec_fn=limits)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    err = read(os.path.join(work, "stderr"))[-200000:].decode("utf-8", "replace")
    case = None
    try:
        case = int.from_bytes(read(prog)[:8], "little") - 1
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        try:
            res = json.loads(read(out).decode("utf-8", "replace"))
        except ValueError:
            res = None
    if rc == 0 and res is not None:
        return "ok", {"res": res, "out": out}
    if rc == 1 and res is not None and res.get("fail"):
        return "fail", {"res": res, "out": out, "fail": res["fail"], "stderr": err}
    if rc is None or rc == 7:
        return "hang", {"case": case, "stderr": err[-3000:], "wall": rc is None}
    if rc == 3:
        return "error", {"stderr": err[-3000:]}
    return "crash", {"case": case, "rc": rc, "stderr": err}


def crash_key(rc, err):
    m = re.search(r"SUMMARY: (\w+): ([^\n]*)", err)
    if m:
        return "sanitizer", m.group(0)
    m = re.search(r"runtime error: [^\n]*", err)
    if m:
        return "sanitizer", m.group(0)
    m = re.search(r"(Assertion[^\n]*failed|terminate called[^\n]*|ERROR SUMMARY[^\n]*)", err)
    if m:
        return "abort", m.group(0)
    return "crash", "exit status %s" % rc


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in read(p).decode().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CHECKS[prop]
        self.known = known_findings(prop)
        self.known_seen = set()
        self.results, self.viol, self.inconclusive, self.errors = [], [], [], []
        self.dir = os.path.join(BUILD, "run.%s.%d" % (prop, os.getpid()))

    def violation(self, build, seed, start, cases, case, key, msg, describe, stderr):
        text = msg + "\n" + describe + "\n" + stderr
        for k, rx, what in self.known:
            if k == key and rx.search(text):
                self.known_seen.add(what)
                return False
        self.viol.append({"property": self.prop, "build": build, "tier": self.tier, "seed": seed, "from": start, "cases": cases,
                          "case": case, "key": key, "message": msg, "describe": describe, "stderr": stderr[-20000:]})
        return True

    def shard(self, name, exe, seed, start, cases, idx):
        b, cfg = BUILDS[name], self.cfg
        work = os.path.join(self.dir, "%s.%d" % (name, idx))
        end = start + cases
        wall = cfg.get("wall", 420)
        for attempt in range(40):  # again after each known finding
            if start >= end or self.viol:
                return
            st, i = run_shard(exe, b, cfg, seed, start, end - start, self.tier, work, wall)
            if st in ("ok", "fail"):
                h = array.array("Q")
                if os.path.exists(i["out"] + ".hashes"):
                    h.frombytes(read(i["out"] + ".hashes"))
                e = array.array("Q")
                if os.path.exists(i["out"] + ".edges"):
                    e.frombytes(read(i["out"] + ".edges"))
                self.results.append((name, i["res"], h, e))
            if st == "ok":
                return
            if st == "fail":
                f = i["fail"]
                if self.violation(name, seed, f["case"], 1, f["case"], f["key"], f["msg"], f["describe"], ""):
                    return
                start = f["case"] + 1
                continue
            if st == "error":
                self.errors.append("%s: %s" % (name, i["stderr"]))
                return
            case = i["case"]
            # A crash or a hang: once more, the single case first, to be sure and to describe it.
            whole = (start, end - start)
            one = (case, 1) if case is not None and start <= case < end else whole
            for again in (one, whole) if one != whole else (one,):
                os.environ["VH_TRACE"] = "1"
                st2, j = run_shard(exe, b, cfg, seed, again[0], again[1], self.tier, work, min(wall, 240) if again[1] == 1 else wall,
                                    3 if st == "hang" and not i["wall"] and again[1] == 1 else 1)
                os.environ.pop("VH_TRACE", None)
                if st2 == st or st2 in ("crash", "fail"):
                    break
            else:
                if st == "crash" and i["rc"] != -9:
                    # A sanitizer report or an abort is a fact even if it depends on timing.
                    st2, j, again = st, i, whole
                else:
                    self.inconclusive.append("%s: %s at case %s did not happen again" % (name, st, case))
                    start = (case if case is not None else start) + 1
                    continue
            if st2 == "fail":
                f = j["fail"]
                key, msg, desc, err = f["key"], f["msg"], f["describe"], ""
            else:
                err = j["stderr"]
                desc = "\n".join(re.findall(r"^\[case \d+\] .*(?:\n  .*)*", err, re.M)[-6:])
                if st2 == "hang":
                    key, msg = "hang", "a call does not return (CPU or wall limit, twice)"
                else:
                    key, msg = crash_key(j["rc"], err)
            if st2 == "crash" and j.get("rc") == -9:
                self.inconclusive.append("%s: killed (memory?) at case %s" % (name, case))
                return
            if self.violation(name, seed, again[0], again[1], case, key, msg, desc, err):
                return
            start = (case if case is not None else end) + 1

    def main(self):
        t0 = time.time()
        plan = self.cfg[self.tier] if self.tier in self.cfg else self.cfg["quick"]
        bins = build(self.prop, list(plan))
        tb = time.time() - t0
        say("%s: built %s in %.0f s" % (self.prop, ", ".join(plan), tb))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        tasks = []
        for k, (name, cases) in enumerate(plan.items()):
            shards = min(self.cfg.get("shards", 2 * CORES), cases)
            per = (cases + shards - 1) // shards
            seed = self.seed * 10 + k
            for s in range(shards):
                n = min(per, cases - s * per)
                if n > 0:
                    tasks.append((s, name, bins[name], seed, s * per, n))
        tasks.sort(key=lambda t: t[0])
        with cf.ThreadPoolExecutor(self.cfg.get("jobs", CORES)) as ex:
            fs = [ex.submit(self.shard, t[1], t[2], t[3], t[4], t[5], k) for k, t in enumerate(tasks)]
            for f in fs:
                f.result()
        for post in self.cfg.get("post", []):
            post(self)
        self.evidence(t0, tb)
        shutil.rmtree(self.dir, ignore_errors=True)
        for w in sorted(self.known_seen):
            say("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.viol:
            self.report()
            return 1
        for e in self.inconclusive:
            say("inconclusive: " + e)
        if self.errors:
            say("check error: " + "\n".join(self.errors[:3]))
            return 2
        ev, nt = self.evals, self.distinct
        if not ev or not nt:
            say("check error: nothing was observed")
            return 2
        say("%s held: %d evaluations, %d distinct non-trivial, %.0f s" % (self.prop, ev, nt, time.time() - t0))
        return 0

    def report(self):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        v = min(self.viol, key=lambda v: (v["key"] in ("hang",), len(v["describe"]) + (0 if v["describe"] else 10**6)))
        path = os.path.join("replays", "%s-%s-%d.json" % (self.prop, re.sub(r"\W+", "_", v["key"])[:40], v["seed"]))
        v["replay"] = "python3 check.py --replay " + path
        v["other_failures"] = len(self.viol) - 1
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(v, f, indent=1)
        say("%s: %s (build %s, seed %d, case %s)" % (v["key"], v["message"][:3000], v["build"], v["seed"], v["case"]))
        say(v["describe"][:3000])
        if v["stderr"]:
            m = re.search(r"(==\d+==ERROR.*|WARNING: ThreadSanitizer.*|.*runtime error.*)", v["stderr"], re.S)
            say((m.group(0) if m else v["stderr"])[:1200])
        say("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self, t0, tb):
        counters, per = {}, {}
        hashes, edges, samples = set(), {}, []
        ev = sk = nt = 0
        rule = ""
        for name, res, h, e in self.results:
            ev += res["evaluations"]
            nt += res["nontrivial"]
            sk += res["skipped"]
            per[name] = per.get(name, 0) + res["evaluations"]
            rule = res["rule"]
            for k, v in res["counters"].items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
            hashes.update(h)
            edges.setdefault(name, set()).update(e)
            if len(samples) < 4:
                samples += res["samples"][:1]
        self.evals, self.distinct = ev, len(hashes)
        cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples,
               "evaluations_per_build": per, "skipped_cases": sk, "observed": counters, "inconclusive": self.inconclusive,
               "build_s": round(tb, 1)}
        e = {n: len(s) for n, s in edges.items() if s}
        if e:
            cov["library_basic_blocks_reached"] = e
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.cfg.get("level", "exploration"),
             "coverage": cov, "assumptions": self.cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def replay(path):
    v = json.load(open(os.path.join(HERE, path) if not os.path.isabs(path) else path))
    exe = build(v["property"], [v["build"]])[v["build"]]
    work = os.path.join(BUILD, "replay.%d" % os.getpid())
    os.environ["VH_TRACE"] = "1"
    st, i = run_shard(exe, BUILDS[v["build"]], CHECKS[v["property"]], v["seed"], v["from"], v["cases"], v["tier"], work, 600)
    say(st)
    for f in ("stdout", "stderr"):
        say(read(os.path.join(work, f))[-20000:].decode("utf-8", "replace"))
    shutil.rmtree(work, ignore_errors=True)
    return 0 if st == "ok" else 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":  # nothing to prepare: each check builds what it needs; only see that the tools are there
        for t in ("g++", "valgrind"):
            if not shutil.which(t):
                raise CheckError("no " + t)
        os.makedirs(BUILD, exist_ok=True)
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    tier, seed, prop = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1), None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--seed":
            seed = int(a.pop(0))
        else:
            prop = x
    if prop not in CHECKS:
        say("unknown property", prop)
        return 2
    return Run(prop, tier, seed).main()


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        say("check error:", e)
        rc = 2
    sys.exit(rc)
