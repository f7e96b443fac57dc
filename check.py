#!/usr/bin/env python3
"""Driver: check.py <PROPERTY> [quick|thorough] | check.py --setup | check.py --replay FILE

Builds the harness of one property against the sanitized sources of /repo's current tree, runs its cases in
worker processes, turns what the monitors and sanitizers observed into verdicts, and writes evidence.
Exit: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 no verdict (build failure,
missing observations, ...)."""
import sys, os, json, hashlib, subprocess, time, re, glob, threading, queue, shutil, tempfile, signal

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
NPROC = max(1, min(8, os.cpu_count() or 8, int(os.environ.get("VERIF_NPROC", "8"))))
sys.path.insert(0, os.path.join(V, "conf"))
from props import PROPS  # noqa: E402

INC = ["-I" + os.path.join(V, "conf"), "-I" + R, "-isystem", "/usr/include/suitesparse"]
SKIP = {"LinearSolverAGMG.cpp", "LinearSolverIstl.cpp", "xmltest.cpp"}
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,null,nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (CC, CXX, common flags, link flags)
    "san": ("clang", "clang++", ["-g1", "-O0"] + SAN + ["-ftrivial-auto-var-init=pattern", "-Wno-everything", "-DHAVE_CONFIG_H", "-DUF_long=long"], SAN),
    "sanu": ("clang", "clang++", ["-g1", "-O0"] + SAN + ["-Wno-everything", "-DHAVE_CONFIG_H", "-DUF_long=long"], SAN),
    "plain": ("clang", "clang++", ["-g", "-O1", "-fno-inline", "-Wno-everything", "-DHAVE_CONFIG_H", "-DUF_long=long"], []),
    "omp": ("gcc", "g++", ["-g1", "-O1", "-w", "-fopenmp", "-DHAVE_CONFIG_H", "-DUF_long=long"], ["-fopenmp", "-Wl,-z,muldefs"]),
    "tsan": ("gcc", "g++", ["-g1", "-O1", "-w", "-fopenmp", "-fsanitize=thread", "-DHAVE_CONFIG_H", "-DUF_long=long"], ["-fsanitize=thread", "-fopenmp", "-Wl,-z,muldefs"]),
    "ser": ("gcc", "g++", ["-g1", "-O1", "-w", "-DHAVE_CONFIG_H", "-DUF_long=long"], []),
}
LIBS = ["-lumfpack", "-llapack", "-lblas", "-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lm", "-lpthread"]


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}
_fl = threading.Lock()


def fhash(p):
    with _fl:
        if p in _fh:
            return _fh[p]
    try:
        h = sha(open(p, "rb").read())
    except OSError:
        h = "missing"
    with _fl:
        _fh[p] = h
    return h


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d, dn, fn in os.walk(os.path.join(R, "opm", "core")):
        dn.sort()
        for f in sorted(fn):
            if f.endswith((".c", ".cpp", ".cc", ".cxx")) and f not in SKIP:
                out.append(os.path.join(d, f))
    return out


def compile_one(src, variant, extra=()):
    cc, cxx, flags, _ = VARIANTS[variant]
    isc = src.endswith(".c")
    std = ["-std=gnu99"] if isc else (["-std=c++11"] if src.startswith(R + "/") else ["-std=c++14"])
    if "noomp" in os.path.basename(src):
        flags = flags + ["-fno-openmp"]
    cmd = [cc if isc else cxx] + std + flags + list(extra) + INC + ["-I" + os.path.join(V, "lib"), "-c", src]
    tag = sha("\0".join([os.path.relpath(src, R if src.startswith(R + "/") else V), variant] + list(extra)).encode())[:16]
    od = os.path.join(B, variant)
    os.makedirs(od, exist_ok=True)
    obj = os.path.join(od, os.path.basename(src) + "." + tag + ".o")
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"].items()):
            return obj
    except (OSError, ValueError, KeyError):
        pass
    tmp = obj + ".%d.%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", tmp + ".d"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        for s in (".o", ".d"):
            try:
                os.unlink(tmp + s)
            except OSError:
                pass
        raise BuildError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
    deps = open(tmp + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    dh = {p: fhash(p) for p in deps}
    os.replace(tmp + ".o", obj)
    with open(tmp + ".j", "w") as f:
        json.dump({"cmd": cmd, "deps": dh}, f)
    os.replace(tmp + ".j", meta)
    return obj


def parallel(jobs):
    """jobs: list of callables; returns list of results or exceptions"""
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)

    def w():
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                res[i] = jobs[i]()
            except Exception as e:  # noqa
                res[i] = e
    th = [threading.Thread(target=w) for _ in range(NPROC)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return res


HEAVY = ["EclipseGridParser.cpp", "WellsManager.cpp", "SimulatorIncompTwophase.cpp", "SimulatorCompressibleTwophase.cpp", "TransportSolverTwophaseImplicit.cpp", "WellsGroup.cpp"]


def build(name, srcs, variant="san", extra=(), full=False):
    """harness sources (absolute) + repo objects -> executable. Uses hints for which repo sources are needed."""
    hints_file = os.path.join(V, "conf", "hints.json")
    hints = {}
    if os.path.exists(hints_file):
        hints = json.load(open(hints_file))
    allsrc = repo_sources()
    want = allsrc
    hinted = False
    hname = name[2:] if name.startswith("l_") else name
    if not full and hname in hints:
        hs = set(hints[hname])
        want = [s for s in allsrc if os.path.relpath(s, R) in hs]
        hinted = True
    want.sort(key=lambda s: (os.path.basename(s) not in HEAVY, -os.path.getsize(s)))
    jobs = [(lambda s=s: compile_one(s, variant, extra)) for s in srcs] + [(lambda s=s: compile_one(s, variant)) for s in want]
    res = parallel(jobs)
    nh = len(srcs)
    for r in res[:nh]:
        if isinstance(r, Exception):
            raise r
    objs = [r for r in res[nh:] if not isinstance(r, Exception)]
    errs = [r for r in res[nh:] if isinstance(r, Exception)]
    exe = os.path.join(B, variant, name)
    tmp = exe + ".%d" % os.getpid()
    ar = tmp + ".a"
    if objs:
        subprocess.run(["ar", "rcsT", ar] + objs, check=True, stdout=subprocess.DEVNULL)
    cmd = [VARIANTS[variant][1], "-o", tmp] + res[:nh] + ([ar] if objs else []) + VARIANTS[variant][3] + [x for x in extra if x.startswith("-Wl,")] + ["-Wl,--trace"] + LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.path.exists(ar):
        os.unlink(ar)
    if r.returncode != 0:
        if hinted:
            return build(name, srcs, variant, extra, full=True)
        raise BuildError("link failed: %s\n%s\n%s" % (name, r.stdout[-3000:], "\n".join(str(e) for e in errs[:3])))
    os.replace(tmp, exe)
    used = set()
    o2s = {o: s for o, s in zip([x for x in res[nh:]], want) if not isinstance(o, Exception)}
    for line in r.stdout.splitlines():
        line = line.strip()
        m = re.match(r"^\(?(.*?)\)?$", line)
        for o, s in o2s.items():
            if line.endswith(os.path.basename(o)) or line.endswith(os.path.basename(o) + ")"):
                used.add(os.path.relpath(s, R))
    build.used = sorted(used)
    return exe


ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=1048576:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:hard_rss_limit_mb=4000:detect_invalid_pointer_pairs=0:strict_string_checks=0:handle_abort=1:fast_unwind_on_malloc=1:malloc_context_size=8:max_free_fill_size=4096:free_fill_byte=254:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0:history_size=2",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C",
}
for sym in ("llvm-symbolizer-18", "llvm-symbolizer"):
    if shutil.which(sym):
        ENV_SAN["ASAN_SYMBOLIZER_PATH"] = shutil.which(sym)
        break


def merge_env(env, more):
    """NAME=value replaces; NAME+=value is appended with a colon"""
    for k, v in (more or {}).items():
        if k.endswith("+"):
            env[k[:-1]] = env.get(k[:-1], "") + ":" + v
        else:
            env[k] = v


def crash_key(rc, err):
    """signature of an abnormal end from its stderr"""
    m = re.search(r"MONITOR-HANG", err)
    if m:
        return "hang"
    m = re.search(r"([\w./-]+):(\d+): (?:[^\n]*?)Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\s+", "", m.group(3))[:60])
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        kind = re.sub(r"-?\b(0x[0-9a-f]+|[0-9.e+-]+)\b", "N", m.group(1))[:70].strip()
        fn = first_frame(err)
        return "ubsan:%s:%s" % (re.sub(r"\s+", "_", kind), fn)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), first_frame(err))
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(pid", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).replace(" ", "-"), first_frame(err))
    if "hard rss limit exhausted" in err or "out of memory" in err or "allocation-size-too-big" in err:
        return "memory-exhausted"
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "terminate:" + m.group(1)
    return "crash:rc=%s" % rc


def first_frame(err):
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?):(\d+)", err):
        f = m.group(2)
        if "/opm/core/" in f or f.startswith(V):
            fn = re.sub(r"\(.*", "", m.group(1))
            return "%s@%s" % (fn, os.path.basename(f))
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (\S+)", err)
    return m.group(1) if m else "?"


class Runner:
    def __init__(self, prop, exe, seed, ncases, tier, workdir, prefix=(), env=None, extra=()):
        self.prop, self.exe, self.seed, self.n, self.tier, self.wd = prop, exe, seed, ncases, tier, workdir
        self.prefix, self.extra = list(prefix), list(extra)
        self.env = dict(os.environ)
        self.env.update(ENV_SAN)
        merge_env(self.env, env)
        self.viol = []   # (case, key, detail, stderr)
        self.ev = {}
        self.hashes = set()
        self.samples = []
        self.cases = 0
        self.crashes = 0
        self.err = None
        self.lock = threading.Lock()
        self.stop = False

    def run_range(self, a, b, tag):
        k = a
        n = 0
        while k < b and not self.stop:
            n += 1
            out = os.path.join(self.wd, "out.%s.%d" % (tag, n))
            errf = os.path.join(self.wd, "err.%s.%d" % (tag, n))
            sc = os.path.join(self.wd, "scratch.%s.%d" % (tag, n))
            os.makedirs(sc)
            with open(errf, "wb") as ef:
                p = subprocess.Popen(self.prefix + [self.exe, "--seed", str(self.seed), "--from", str(k), "--to", str(b), "--out", out, "--tier", self.tier] + self.extra,
                                     stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=self.env, cwd=sc, start_new_session=True)
                try:
                    rc = p.wait(timeout=self.wall)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = "timeout"
            last, done = self.absorb(out)
            shutil.rmtree(sc, ignore_errors=True)
            if done and rc == 0:
                err = ""
                os.unlink(errf)
                return
            with open(errf, "rb") as f:
                f.seek(0, 2)
                sz = f.tell()
                f.seek(max(0, sz - 60000))
                err = f.read().decode("utf8", "replace")
            os.unlink(errf)
            if rc == "timeout":
                with self.lock:
                    self.err = "worker exceeded wall limit at case %s" % last
                self.stop = True
                return
            if last is None:
                with self.lock:
                    self.err = "worker died before its first case (rc %s): %s" % (rc, err[-1500:])
                self.stop = True
                return
            with self.lock:
                self.crashes += 1
                self.add_viol((last, crash_key(rc, err), "abnormal end rc=%s" % rc, err[-12000:]))
                if self.crashes > 60:
                    self.stop = True
            k = last + 1

    def add_viol(self, v):
        self.viol.append(v)
        if not self.known(v[1]):
            self.unlisted += 1
            if self.unlisted >= int(os.environ.get("VERIF_MAXV","3")):
                self.stop = True

    def absorb(self, out):
        last, done = None, False
        try:
            data = open(out, "rb").read().decode("utf8", "replace")
        except OSError:
            return None, False
        with self.lock:
            for line in data.split("\n"):
                if line.startswith("case "):
                    last = int(line[5:])
                    self.cases += 1
                elif line.startswith("viol "):
                    _, k, rest = line.split(" ", 2)
                    key, _, det = rest.partition("\t")
                    self.add_viol((int(k), key, det.replace("\\n", "\n"), ""))
                elif line.startswith("ev "):
                    name, c = line[3:].rsplit(" ", 1)
                    self.ev[name] = self.ev.get(name, 0) + int(c)
                elif line.startswith("hash "):
                    self.hashes.add(line[5:])
                elif line.startswith("sample "):
                    if len(self.samples) < 12:
                        self.samples.append(line[7:].replace("\\n", "\n"))
                elif line == "done":
                    done = True
        os.unlink(out)
        return last, done

    def run(self, known, wall):
        self.known, self.unlisted, self.wall = known, 0, wall
        nch = min(self.n, NPROC * 4)
        bounds = [self.n * i // nch for i in range(nch + 1)]
        for x in parallel([(lambda i=i: None if self.stop else self.run_range(bounds[i], bounds[i + 1], str(i))) for i in range(nch)]):
            if isinstance(x, Exception) and not self.err:
                self.err = "driver failed: %r" % x
        if not self.err and not self.stop and self.cases != self.n:
            self.err = "%d of %d cases evaluated" % (self.cases, self.n)


def load_known(prop):
    path = os.path.join(V, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path)).get("known", []) if f["property"] == prop]


def main_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    known = load_known(prop)
    kk = {f["key"]: f for f in known}
    os.makedirs(B, exist_ok=True)
    evdir = os.path.join(V, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(V, "replay")
    wd = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=B)
    runs = []
    try:
        if len(cfg["phases"]) > 3:
            parallel([(lambda ph=ph, s=s: compile_one(os.path.join(V, "h", s), ph.get("variant", "san"), tuple(ph.get("flags", ())))) for ph in cfg["phases"] for s in ph["src"]])
        for ph in cfg["phases"]:
            n = ph["thorough"] if tier == "thorough" else ph["quick"]
            if n <= 0:
                continue
            srcs = [os.path.join(V, "h", s) for s in ph["src"]]
            exe = build(ph["exe"], srcs, ph.get("variant", "san"), tuple(ph.get("flags", ())))
            pwd_ = os.path.join(wd, ph["exe"] + "." + str(len(runs)))
            os.makedirs(pwd_)
            r = Runner(prop, exe, seed, n, tier, pwd_, ph.get("prefix", ()), ph.get("env"), ph.get("args", ()))
            r.ph = ph
            tb = time.time()
            r.run(lambda k: k in kk, 800 if tier == "quick" else 14000)
            r.secs = time.time() - tb
            runs.append(r)
            if r.err:
                break
            if r.unlisted and not os.environ.get("VERIF_ALLPH"):
                break
    except BuildError as e:
        print("NO-VERDICT property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    ev, hashes, samples, cases = {}, set(), [], 0
    for r in runs:
        for k, v in r.ev.items():
            ev[k] = ev.get(k, 0) + v
        hashes |= r.hashes
        samples += r.samples
        cases += r.cases
    viols = [(r, v) for r in runs for v in r.viol]
    unl = [(r, v) for r, v in viols if v[1] not in kk]
    seen_known = sorted({v[1] for r, v in viols if v[1] in kk})
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
            "samples": samples[:12], "monitor_events": dict(sorted(ev.items())),
            "phases": [{"harness": r.ph["exe"], "instrumentation": r.ph.get("variant", "san"), "cases": r.cases, "seconds": round(r.secs, 2)} for r in runs],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(unl),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kk[k]["what"]))
    if unl:
        os.makedirs(rpdir, exist_ok=True)
        shown = set()
        for r, v in unl:
            if v[1] in shown or len(shown) >= 8:
                continue
            shown.add(v[1])
            path = os.path.join(rpdir, "%s-%s-%d.json" % (prop, sha(v[1].encode())[:8], v[0]))
            with open(path, "w") as f:
                json.dump({"property": prop, "harness": r.ph["exe"], "phase": cfg["phases"].index(r.ph), "seed": seed, "case": v[0], "key": v[1], "detail": v[2], "stderr": v[3]}, f, indent=1)
            print("  key=%s case=%d %s" % (v[1], v[0], v[2][:600]))
            if v[3]:
                print("  " + "\n  ".join(v[3].strip().splitlines()[:12]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    errs = [r.err for r in runs if r.err]
    if errs:
        print("NO-VERDICT property=%s: %s" % (prop, errs[0]))
        return 2
    missing = [e for e in cfg.get("require", []) if ev.get(e, 0) == 0]
    for f in known:
        if f.get("always", True) and f["key"] not in seen_known:
            print("note: listed finding %s was not observed in this run" % f["key"])
    if missing:
        print("NO-VERDICT property=%s: monitors never observed %s" % (prop, ", ".join(missing)))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs" % (prop, tier, seed, cases, len(hashes), sum(ev.values()), time.time() - t0))
    return 0


def main_replay(path):
    d = json.load(open(path))
    cfg = PROPS[d["property"]]
    ph = cfg["phases"][d["phase"]]
    exe = build(ph["exe"], [os.path.join(V, "h", s) for s in ph["src"]], ph.get("variant", "san"), tuple(ph.get("flags", ())))
    env = dict(os.environ)
    env.update(ENV_SAN)
    merge_env(env, ph.get("env"))
    wd = tempfile.mkdtemp(prefix="replay-", dir=B)
    try:
        return subprocess.run(list(ph.get("prefix", ())) + [exe, "--seed", str(d["seed"]), "--from", str(d["case"]), "--to", str(d["case"] + 1), "--out", "/dev/stdout", "--tier", "quick", "--verbose"] + list(ph.get("args", ())), cwd=wd, env=env).returncode
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main_hints(names):
    """development aid: record which repo sources each harness links"""
    hf = os.path.join(V, "conf", "hints.json")
    h = json.load(open(hf)) if os.path.exists(hf) else {}
    for prop, cfg in sorted(PROPS.items()):
        if names and prop not in names:
            continue
        for ph in cfg["phases"]:
            build(ph["exe"], [os.path.join(V, "h", s) for s in ph["src"]], ph.get("variant", "san"), tuple(ph.get("flags", ())), full=True)
            h[ph["exe"]] = build.used
            print(prop, ph["exe"], len(build.used))
    with open(hf, "w") as f:
        json.dump(h, f, indent=0, sort_keys=True)


def main_manifest():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in PROPS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": PROPS[i]["technique"], "level": "exploration", "level_note": PROPS[i]["note"]})
        else:
            from props import NOT_APPLICABLE
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "machinery for this property is still under construction; no check is claimed yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "Every check builds its harness from /verif/h and /repo's current sources (clang ASan+UBSan unless stated) into /verif/build, runs seeded case workloads under monitors, and writes evidence/<id>.json. No hooks in /repo are needed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        r = subprocess.run(["clang++", "--version"], stdout=subprocess.DEVNULL)
        sys.exit(r.returncode)
    elif a and a[0] == "--replay":
        sys.exit(main_replay(a[1]))
    elif a and a[0] == "--hints":
        main_hints(a[1:])
    elif a and a[0] == "--manifest":
        main_manifest()
    elif a:
        sys.exit(main_check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    else:
        print(__doc__)
        sys.exit(2)
