#!/usr/bin/env python3
"""Decides one property by running the real code of /repo under monitors and sanitizers.

  check.py ID [--tier quick|thorough]     build from /repo's working tree, run, write evidence
  check.py --replay FILE                  run the case recorded in a replay file again
  check.py --list

Exit 0: the property held on everything that was executed.
Exit 1: "VIOLATION property=ID replay=FILE" was printed.
Exit 2: the check itself failed (does not build, observed nothing, ...): no verdict.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NCPU = max(2, min(8, os.cpu_count() or 2))

sys.path.insert(0, VERIF)
from properties_config import CONFIG  # noqa: E402

COMMON = ["-std=c++14", "-g1", "-fno-omit-frame-pointer", "-pthread", "-w",
          "-DGUL_USING_STATIC_LIB_OR_OBJECTS", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS]
VARIANTS = {
    # one sanitizer family per build
    "asan":  ["g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                      "-D_GLIBCXX_SANITIZE_VECTOR=1"]],
    "asan-clang": ["clang++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                               "-fno-sanitize=function"]],
    "tsan":  ["g++", ["-O1", "-fsanitize=thread"]],
    "tsan-clang": ["clang++", ["-O1", "-fsanitize=thread"]],
    "plain": ["g++", ["-O2"]],
    "plain-clang": ["clang++", ["-O2"]],
    "valgrind": ["g++", ["-O1"]],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "hard_rss_limit_mb=5000:allocator_may_return_null=0:strict_init_order=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:hard_rss_limit_mb=6000:suppressions=" + os.path.join(HARNESS, "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=99",
}


class HarnessError(Exception):
    pass


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True))


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        files = []
        for root in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS):
            for d, _, fs in os.walk(root):
                # other harnesses' sources are of no concern (their own source is hashed separately)
                files += [os.path.join(d, f) for f in fs if root != HARNESS or f.endswith(".h")]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
        _tree_hash = h.hexdigest()
    return _tree_hash


def compile_one(src, obj, cxx, flags):
    with open(src, "rb") as f:
        own = hashlib.sha256(f.read()).hexdigest()
    key = hashlib.sha256(("\0".join([cxx, src, own] + flags) + tree_hash()).encode()).hexdigest()[:32]
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        txt = r.stdout.decode(errors="replace")
        errs = [l for l in txt.split("\n") if "error:" in l or "required from" in l]
        raise HarnessError("compiling %s failed:\n%s" % (src, "\n".join(errs[:30]) or txt[:6000]))
    os.replace(tmp, obj)
    with open(stamp, "w") as f:
        f.write(key)


def build(prop, jobs):
    """Compiles everything the jobs need, in parallel; returns {job index: binary}."""
    todo, bins = {}, {}
    for i, job in enumerate(jobs):
        cxx, vflags = VARIANTS[job["variant"]]
        flags = COMMON + vflags + job.get("cflags", [])
        tag = hashlib.sha256("\0".join([cxx] + flags).encode()).hexdigest()[:12]
        objdir = os.path.join(BUILD, tag)
        os.makedirs(objdir, exist_ok=True)
        objs = []
        srcs = [os.path.join(HARNESS, s) for s in job["src"]]
        if job.get("lib", True):
            srcs += repo_sources()
        for s in srcs:
            obj = os.path.join(objdir, os.path.basename(s) + ".o")
            objs.append(obj)
            parts = job.get("parts", 1) if s.startswith(HARNESS + os.sep) else 1
            if parts == 1:
                todo[obj] = (s, obj, cxx, flags)
            else:  # a large harness, compiled in pieces
                objs.pop()
                for k in range(1, parts + 1):
                    o = obj[:-2] + ".p%d.o" % k
                    objs.append(o)
                    todo[o] = (s, o, cxx, flags + ["-DPART=%d" % k] + (["-DVM_NO_MAIN", "-DVM_NO_ALLOC_HOOK"] if k > 1 else []))
        bins[i] = (objs, cxx, flags, os.path.join(objdir, "%s_%d" % (prop, i)), job)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, *a) for a in todo.values()]:
            f.result()
    out = {}
    for i, (objs, cxx, flags, exe, job) in bins.items():
        link = [a for a in flags if not a.startswith("-I")] + objs + job.get("ldflags", []) + ["-o", exe]
        r = subprocess.run([cxx] + link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise HarnessError("linking failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        out[i] = exe
    return out


SAN_RE = [
    (re.compile(r"ERROR: AddressSanitizer: (?:hard rss limit)"), "memory-exhausted"),
    (re.compile(r"ERROR: AddressSanitizer:? ([A-Za-z0-9_-]+)"), "asan:%s"),
    (re.compile(r"AddressSanitizer: CHECK failed"), "asan:check-failed"),
    (re.compile(r"runtime error: ([^\n]{0,60})"), "ubsan:%s"),
    (re.compile(r"WARNING: ThreadSanitizer: ([a-z -]+)"), "tsan:%s"),
    (re.compile(r"ERROR: ThreadSanitizer: ([A-Za-z -]+)"), "tsan:%s"),
    (re.compile(r"ERROR: LeakSanitizer: detected memory leaks"), "lsan:leak"),
    (re.compile(r"hard rss limit exhausted"), "memory-exhausted"),
    (re.compile(r"==\d+== (Invalid (?:read|write|free)[^\n]*|Conditional jump[^\n]*|Use of uninitialised[^\n]*|Mismatched free[^\n]*|Source and destination overlap[^\n]*|Syscall param[^\n]*)"), "memcheck:%s"),
]


def classify(stderr):
    for rx, key in SAN_RE:
        m = rx.search(stderr)
        if m:
            k = key % re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)).strip() if "%s" in key else key
            return k
    return None


def san_excerpt(err):
    k = min([m.start() for m in (re.search(r"WARNING: ThreadSanitizer|ERROR: \w+Sanitizer|runtime error|==\d+== [A-Z]", err),) if m] or [max(0, len(err) - 5000)])
    return err[max(0, k - 200):k + 6000]


def run_proc(job, exe, args, timeout, env_extra=None, nolsan=False):
    env = dict(os.environ)
    env.update(ENV)
    env.update(job.get("env", {}))
    if nolsan or not job.get("leaks", True):
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    if env_extra:
        env.update(env_extra)
    cmd = [exe] + args
    if job["variant"] == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=98", "--leak-check=no", "--exit-on-first-error=yes",
               "--fair-sched=yes"] + cmd
    if job["variant"].startswith("tsan") and shutil.which("setarch"):
        cmd = ["setarch", "-R"] + cmd
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         env=env, cwd="/", start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        return None, err.decode(errors="replace"), True


def run_shard(prop, i, job, exe, seed, tier, shard, nshards, extra):
    """Runs one process and returns a dict with what it observed and a violation, if any."""
    base = os.path.join(BUILD, "run-%d-%s-%d-%d-%d" % (os.getpid(), prop, i, seed, shard))
    out, prog = base + ".json", base + ".progress"
    args = ["--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--out", out, "--progress", prog]
    if tier == "thorough":
        args.append("--thorough")
    if "scale" in job:
        args += ["--scale", str(job["scale"])]
    if "only" in job:
        args += ["--only", job["only"]]
    args += extra
    timeout = job.get("timeout", 150) * (4 if tier == "thorough" else 1)
    res = {"job": i, "shard": shard, "variant": job["variant"], "violation": None, "stats": None, "distinct": b""}

    def progress():
        try:
            return open(prog).read().split("\n")[0].strip("\0 ")
        except OSError:
            return "?"

    nolsan = False
    hangs = 0
    for attempt in range(4):
        for f in (out, out + ".distinct"):
            if os.path.exists(f):
                os.unlink(f)
        rc, err, timed_out = run_proc(job, exe, args, timeout * (1.5 if hangs else 1), nolsan=nolsan)
        if timed_out:
            hangs += 1
            if hangs < 2:
                continue
            res["violation"] = {"key": "hang:" + progress().split(" ")[0], "where": progress(),
                                "detail": "did not finish within %.0f s, twice (%s)" % (timeout, progress())}
            break
        if "LeakSanitizer has encountered a fatal error" in err and not nolsan:
            nolsan = True  # environment does not permit leak checking
            continue
        if "FATAL: ThreadSanitizer: unexpected memory mapping" in err or "setarch:" in err[:200]:
            if attempt < 3:
                continue
            raise HarnessError("thread sanitizer cannot run here: " + err[-500:])
        break
    if res["violation"] is None:
        stats = None
        if os.path.exists(out):
            try:
                stats = json.load(open(out, errors="replace"))
            except ValueError:
                stats = None
        if stats and os.path.exists(out + ".distinct"):
            res["distinct"] = open(out + ".distinct", "rb").read()
        res["stats"] = stats
        if stats and stats.get("violation"):
            v = stats["violation"]
            res["violation"] = {"key": v["key"], "where": "%s %d" % (v["group"], v["case"]), "detail": v["detail"],
                                "case": v["case"], "group": v["group"]}
        elif rc != 0:
            san = classify(err)
            grp = progress()
            if san:
                res["violation"] = {"key": "%s:%s" % (grp.split(" ")[0], san), "where": grp, "detail": san_excerpt(err)}
            elif rc < 0 or rc in (134, 139, 136, 135, 132):
                sig = -rc if rc < 0 else rc - 128
                if sig == signal.SIGKILL:
                    raise HarnessError("process was killed (SIGKILL), probably out of memory")
                res["violation"] = {"key": "%s:crash:%s" % (grp.split(" ")[0], signal.Signals(sig).name), "where": grp,
                                    "detail": "terminated by signal %d\n%s" % (sig, err[-4000:])}
            else:
                raise HarnessError("harness exited with %s:\n%s" % (rc, err[-4000:]))
        elif stats is None:
            raise HarnessError("harness wrote no statistics (%s, shard %d, exit %s, %s):\n%s" % (job["variant"], shard, rc, args, err[-2000:]))
    for f in (out, out + ".distinct", prog):
        if os.path.exists(f):
            os.unlink(f)
    res["args"] = [a for a in args if a not in (out, prog)]
    return res


def known_findings():
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


def check(prop, tier, seed):
    t0 = time.time()
    cfg = CONFIG[prop]
    jobs = [j for j in cfg["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    exes = build(prop, jobs)
    t_build = time.time() - t0
    tasks = []
    for i, job in enumerate(jobs):
        seeds = [seed] + ([seed * 1000 + k for k in range(1, job.get("thorough_seeds", 2))] if tier == "thorough" else [])
        for s in seeds:
            n = job.get("shards", 4)
            for sh in range(n):
                tasks.append((prop, i, job, exes[i], s, tier, sh, n, []))
    results = []
    workers = cfg.get("parallel", NCPU)
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(run_shard, *t) for t in tasks]
        err = None
        for f in cf.as_completed(futs):
            try:
                r = f.result()
                results.append(r)
                if r["violation"]:
                    for g in futs:
                        g.cancel()
            except cf.CancelledError:
                pass
            except HarnessError as e:
                err = e
                for g in futs:
                    g.cancel()
    viols = [r for r in results if r["violation"]]
    if err and not viols:
        raise err
    # ---- evidence: everything in it was counted in this run
    counters, samples, evaluations, distinct, variants = {}, [], 0, set(), {}
    for r in sorted(results, key=lambda r: (r["job"], r["shard"])):
        st = r["stats"]
        if not st:
            continue
        evaluations += st["evaluations"]
        variants[r["variant"]] = variants.get(r["variant"], 0) + st["evaluations"]
        for k, v in st["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        for s in st["samples"]:
            if len(samples) < 12 and s.split(":")[0] not in [x.split(":")[0] for x in samples]:
                samples.append(s)
        d = r["distinct"]
        distinct.update(d[k:k + 8] for k in range(0, len(d), 8))
    known = known_findings()
    new, old = [], []
    for r in viols:
        (old if (prop, r["violation"]["key"]) in known else new).append(r)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
                       "samples": samples, "observed_events": counters, "evaluations_per_build": variants,
                       "processes": len(results), "build_s": round(t_build, 2)},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted({r["violation"]["key"] for r in old}):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, k)]))
    if new:
        r = new[0]
        v = r["violation"]
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
        job = jobs[r["job"]]
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "job": cfg["jobs"].index(job), "args": r["args"],
                       "violation": v, "repro": "python3 check.py --replay " + path}, f, indent=1)
        print("key: %s\nat: %s\n%s" % (v["key"], v["where"], v["detail"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # every group of cases in the harness sources must have been run
    for job in jobs:
        if "only" in job:
            continue
        for f in job["src"]:
            for g in re.findall(r'^GROUP\("([^"]+)"', open(os.path.join(HARNESS, f)).read(), re.M):
                if counters.get("cases." + g, 0) == 0:
                    raise HarnessError("group %s of %s was not run" % (g, f))
    if evaluations == 0 or len(distinct) < cfg.get("min_distinct", 2):
        raise HarnessError("the monitors observed too little: %d evaluations, %d distinct" % (evaluations, len(distinct)))
    print("%s %s seed=%d: held; %d evaluations, %d distinct, build %.1f s, total %.1f s" %
          (prop, tier, seed, evaluations, len(distinct), t_build, time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    job = CONFIG[d["property"]]["jobs"][d["job"]]
    os.makedirs(BUILD, exist_ok=True)
    exe = build(d["property"], [job])[0]
    args = list(d["args"])
    for opt in ("--out", "--progress"):
        while opt in args:
            args.remove(opt)
    v = d["violation"]
    where = v.get("where", "").split(" ")
    if len(where) == 2 and where[1].isdigit():
        args += ["--only", where[0], "--case", where[1]]
    rc, err, to = run_proc(job, exe, args, 600)
    print(err[-8000:])
    print("exit", rc, "(timeout)" if to else "")
    return 0 if rc == 0 else 1


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier")
        tier = a[k + 1]
        del a[k:k + 2]
    if a and a[0] == "--list":
        print("\n".join(sorted(CONFIG)))
        return 0
    if a and a[0] == "--setup":
        # every check builds what it needs; only see to it that the tools are there
        for tool in ("g++", "clang++", "valgrind"):
            if not shutil.which(tool):
                print("missing tool: " + tool)
                return 2
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        return check(a[0], tier, seed)
    except HarnessError as e:
        print("check %s gives no verdict: %s" % (a[0], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
