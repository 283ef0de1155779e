#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py C01   (VERIF_SEED, VERIF_TIER from the environment)

Builds the library from /repo's working tree (with the flags of its own build, plus those of the
variant), links the drivers of harness/ with it, runs them, and merges what their oracles observed.
Exit 0: held on everything observed; 1: violation; 2: the check itself could not work.

  run.py --setup            builds everything once
  run.py --replay FILE      runs the command recorded in a replay file again
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
BUILD = os.path.join(V, "build")
LIB = "rpmalloc future events except arrays async_io async_udp async_uds os_unix epoll".split()
BASE = ["-std=gnu90", "-g", "-DUSE_DEBUG", "-DENABLE_ASSERTS", "-fno-strict-aliasing", "-w"]
LINK = ["-rdynamic", "-lpthread", "-latomic", "-ldl", "-lm"]
WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup")]
# variant: (compiler flags of library and driver, link flags, extra harness sources)
VARIANTS = {
    "std": ([], [], []),
    "dbg": (["-DNO_RPMALLOC", "-fPIE"], WRAP + ["-pie"], ["vm.c"]),	# -pie: a heap above is_ptr_usable's bound
    # random delays at every entry and exit of a function (vj.c)
    "jit": (["-finstrument-functions"], [], ["vj.c"]),
    "jitd": (["-DNO_RPMALLOC", "-fPIE", "-finstrument-functions"], WRAP + ["-pie"], ["vm.c", "vj.c"]),
    "asan": (["-DNO_RPMALLOC", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
              "-fno-sanitize=alignment", "--param", "asan-stack=0"],
             ["-fsanitize=address,undefined"], []),
    "asans": (["-DNO_RPMALLOC", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
              "-fno-sanitize=alignment"],
             ["-fsanitize=address,undefined"], []),
    "tsan": (["-fsanitize=thread", "-O1"], ["-fsanitize=thread"], []),
    "tsanm": (["-fsanitize=thread", "-O1", "-DNO_RPMALLOC"], ["-fsanitize=thread"], []),
}


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout


def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for pat in ("src/*", "include/*"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.isfile(f):
                h.update(os.path.relpath(f, REPO).encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in sorted(glob.glob(os.path.join(V, "support", "*"))) + [os.path.join(V, "harness", x) for x in ("vh.c", "vh.h", "vm.c", "vj.c")] + [os.path.abspath(__file__)]:
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


def run_all(cmds, cwd):
    """Runs compiler commands in parallel; returns the first failing output or None."""
    bad, lock = [], threading.Semaphore(8)

    def one(c):
        with lock:
            rc, out = sh(c, cwd=cwd)
            if rc:
                bad.append(" ".join(c) + "\n" + out)
    ts = [threading.Thread(target=one, args=(c,)) for c in cmds]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return bad[0] if bad else None


_locks = {}


def build(variant, driver):
    """Path of the executable of a driver in a variant."""
    cf, lf, extra = VARIANTS[variant]
    d = os.path.join(BUILD, variant + "-" + tree_hash())
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "." + variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = ["-include", os.path.join(V, "support", "notls.h"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "include")]
        if not os.path.exists(os.path.join(d, "ok")):
            for old in glob.glob(os.path.join(BUILD, variant + "-*")):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d)
            rc, out = sh([sys.executable, os.path.join(V, "support", "sysinfo.py"), os.path.join(REPO, "src/async_tls.c"), os.path.join(d, "sysinfo.c")])
            if not rc:
                rc, out = sh(["gcc"] + [x for x in BASE if x != "-w"] + cf + inc + ["-Werror=implicit-function-declaration", "-c", os.path.join(d, "sysinfo.c"), "-o", os.path.join(d, "sysinfo.o")])
            if rc:    # not as it was; nothing of it is checked
                shutil.copy(os.path.join(V, "support", "sysinfo_default.c"), os.path.join(d, "sysinfo.c"))
            cmds = [["gcc"] + BASE + cf + inc + ["-c", src, "-o", os.path.join(d, name + ".o")]
                    for name, src in [(n, os.path.join(REPO, "src", n + ".c")) for n in LIB] + [("sysinfo", os.path.join(d, "sysinfo.c"))]]
            for s in ["vh.c"] + extra:
                cmds.append(["gcc", "-g", "-O1", "-w"] + (["-fPIE"] if "-fPIE" in cf else []) + ["-c", os.path.join(V, "harness", s), "-o", os.path.join(d, s[:-2] + ".vo")])
            bad = run_all(cmds, d)
            if bad:
                die("the library does not compile: " + bad[-3000:])
            rc, out = sh(["ar", "rcs", os.path.join(d, "libev.a")] + [os.path.join(d, n + ".o") for n in LIB + ["sysinfo"]])
            if rc:
                die("ar: " + out)
            open(os.path.join(d, "ok"), "w").close()
        src = os.path.join(V, "harness", driver + ".c")
        exe = os.path.join(d, driver + "-" + hashlib.sha256(b"".join(open(f, "rb").read() for f in [src] + sorted(glob.glob(os.path.join(V, "harness", "*.h"))))).hexdigest()[:8])
        if not os.path.exists(exe):
            cmd = ["gcc"] + BASE + cf + inc + ["-I" + os.path.join(V, "harness"), src] + \
                  [os.path.join(d, s[:-2] + ".vo") for s in ["vh.c"] + extra] + [os.path.join(d, "libev.a")] + lf + ([] if "-pie" in lf else ["-no-pie"]) + LINK + ["-o", exe + ".tmp"]
            rc, out = sh(cmd)
            if rc:
                die("driver %s does not build: %s" % (driver, out[-3000:]))
            os.rename(exe + ".tmp", exe)
    return exe


class Cpus:
    """Hands out disjoint sets of CPUs, so that programs that busy-wait do not disturb each other."""
    def __init__(self):
        self.free = sorted(os.sched_getaffinity(0))
        self.total = len(self.free)
        self.cv = threading.Condition()

    def take(self, n):
        n = min(n, self.total)
        with self.cv:
            while len(self.free) < n:
                self.cv.wait()
            got, self.free = self.free[:n], self.free[n:]
            return got

    def give(self, s):
        with self.cv:
            self.free = sorted(self.free + s)
            self.cv.notify_all()


CPUS = Cpus()
SIGNAMES = {s.value: s.name for s in signal.Signals}


def execute(exe, args, cpus, timeout, tmp, env=None, uid=None, skip=None):
    """Runs one driver process; returns a dict of what it reported."""
    out = tempfile.mktemp(prefix="out.", dir=tmp)
    log = out + ".log"
    got = CPUS.take(cpus)
    if skip and skip():
        CPUS.give(got)
        return None
    e = dict(os.environ)
    e.update({"VH_TMP": tmp, "TMPDIR": tmp,
              "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:handle_sigill=0",
              "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1", "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4"})
    e.update(env or {})
    for k in ("VERIF_SEED", "VERIF_TIER"):
        e.pop(k, None)

    def pre():
        os.sched_setaffinity(0, got)
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t0 = time.time()
    to = False
    try:
        cwd = tempfile.mkdtemp(prefix="cwd.", dir=tmp)
        os.chmod(cwd, 0o711)
        with open(log, "wb") as lf:
            p = subprocess.Popen([exe] + args + ["--out", out], stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, cwd=cwd, env=e, preexec_fn=pre)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc, to = None, True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        shutil.rmtree(cwd, ignore_errors=True)
    finally:
        CPUS.give(got)
    r = {"rc": rc, "evals": 0, "sigs": set(), "counts": {}, "samples": [], "fails": [], "done": False, "hang": None, "broken": None, "wall": time.time() - t0}
    if os.path.exists(out):
        for ln in open(out, errors="replace"):
            t, _, x = ln.rstrip("\n").partition(" ")
            if t == "C": r["evals"] = int(x)
            elif t == "S": r["sigs"].add(x)
            elif t == "N":
                n, _, v = x.rpartition(" ")
                r["counts"][n] = int(v)
            elif t == "X": r["samples"].append(x)
            elif t == "F":
                k, _, x = x.partition("\t")
                r["fails"].append((k, x.replace("\t", " ")))
            elif t == "D": r["done"] = True
            elif t == "H": r["hang"] = x
            elif t == "B": r["broken"] = x
        os.unlink(out)
    try:
        sz = os.path.getsize(log)
        with open(log, "rb") as lf:
            head = lf.read(20000)
            if sz > 60000:
                lf.seek(sz - 40000)
            r["log"] = (head + lf.read()).decode(errors="replace")
        os.unlink(log)
    except OSError:
        r["log"] = ""
    if to:
        r["hang"] = r["hang"] or "did not end within %d s" % timeout
    return r


def bad_end(r, job):
    """None, or (key, text) for a process that did not end as it should."""
    if r["hang"]:
        return "hang:" + job["driver"], r["hang"]
    if r["done"] and not job.get("must_exit0"):
        return None     # what happens after the verdict is not part of this property
    rc = r["rc"]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", r["log"])
    if m:
        i = r["log"].find(m.group(0))
        return "sanitizer:" + m.group(1).strip().replace(" ", "-"), " | ".join(r["log"][i:i + 1500].splitlines()[:14])
    if r["done"] and rc == 0:
        return None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)", r["log"])
    tail = " | ".join(x for x in r["log"].splitlines()[-6:])[-600:]
    if m:
        i = r["log"].find(m.group(0))
        return "sanitizer:" + (m.group(1) or "undefined"), " | ".join(r["log"][i:i + 1500].splitlines()[:14])
    if rc is not None and rc < 0:
        return "crash:%s:%s" % (job["driver"], SIGNAMES.get(-rc, -rc)), "killed by %s; output ends: %s" % (SIGNAMES.get(-rc, -rc), tail)
    return "exit:%s" % job["driver"], "ended with status %s before its cases were done; output ends: %s" % (rc, tail)


def known(pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main(pid):
    import checks
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    chk = checks.CHECKS[pid]
    jobs = []
    for j in chk["jobs"]:
        if j.get("tier") and j["tier"] != tier:
            continue
        q, t = j["cases"]
        n = q if tier == "quick" else t
        shards = j["shards"] if isinstance(j["shards"], int) else j["shards"][tier == "thorough"]
        if not n:
            continue
        for s in range(shards):
            jobs.append(dict(j, shard=s, n=n, of=shards))
    exes = {}
    for j in jobs:
        k = (j.get("variant", "std"), j["driver"])
        if k not in exes:
            exes[k] = build(*k)
    tmp = tempfile.mkdtemp(prefix="verif.%s." % pid)
    os.chmod(tmp, 0o711)    # some drivers give up being root, and keep to a directory of their own in it
    os.chmod(tmp, 0o755)
    kn = known(pid)
    lock = threading.Lock()
    allr, viol, knownhit, errors, ncrash, confirm = [], {}, {}, [], {}, []

    def args_of(j):
        return ["--seed", str(seed), "--shard", str(j["shard"]), "--shards", str(j["of"]), "--cases", str(j["n"])] + list(j.get("args", []))

    def decided():
        # do not spend minutes on more witnesses
        for k in list(viol):
            if time.time() - t0 > (150 if k.startswith(("hang", "crash", "exit")) else 60):
                return True
        return False

    def go(j):
        exe = exes[(j.get("variant", "std"), j["driver"])]
        to = j.get("timeout", 200) * (1 if tier == "quick" else 4)
        tries = 0
        ends = []
        while True:
            if tries > 0 and time.time() - t0 > (420 if tier == "quick" else 5000):
                break
            r = execute(exe, args_of(j), j.get("cpus", 1), to, tmp, j.get("env"), skip=decided)
            if r is None:
                return
            tries += 1
            if r["rc"] == -9 and not r["hang"]:     # ended from outside (memory): says nothing
                r["broken"] = "killed"
            with lock:
                for k, x in r["fails"]:
                    viol.setdefault(k, (x, j)) if k not in dict(kn) else knownhit.setdefault(k, x)
            if r["fails"] and any(k not in dict(kn) for k, _ in r["fails"]):
                break
            if r["broken"]:
                if tries < 3:
                    continue
                errors.append("%s: %s" % (j["driver"], r["broken"]))
                break
            b = bad_end(r, j)
            if b and b[0] in dict(kn):
                with lock:
                    knownhit.setdefault(*b)
                b = None
            if b:
                ends.append(b)
                with lock:
                    tot = ncrash.setdefault(j["driver"], [])
                    tot.append((b, j))
                    if len(tot) >= 2 or b[0].startswith("sanitizer:"):
                        viol.setdefault(tot[0][0][0], (tot[0][0][1], tot[0][1]))
                        break
                if tries < (3 if b[0].startswith("hang") else 7):
                    continue
            break
        with lock:
            r["retries"] = tries - 1
            allr.append(r)
    ts = []
    order = sorted(jobs, key=lambda j: -j.get("cpus", 1))
    sem = threading.Semaphore(max(1, CPUS.total))

    def run(j):
        with sem:
            go(j)
    for j in order:
        t = threading.Thread(target=run, args=(j,))
        t.start()
        ts.append(t)
    [t.join() for t in ts]
    shutil.rmtree(tmp, ignore_errors=True)
    evals = sum(r["evals"] for r in allr)
    sigs = set().union(*[r["sigs"] for r in allr]) if allr else set()
    counts = {}
    for r in allr:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    samples = [s for r in allr for s in r["samples"]][:6]
    for k, x in kn:
        if k in knownhit or "once in" in x:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, x, knownhit.get(k, "a rare one, not seen in this run")[:200]))
    rc = 0
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(V, "replays", pid + "-*.json")):
        os.unlink(old)
    for n, (k, (x, j)) in enumerate(sorted(viol.items())):
        rp = os.path.join(V, "replays", "%s-%d.json" % (pid, n))
        json.dump({"property": pid, "key": k, "what": x, "driver": j["driver"], "variant": j.get("variant", "std"), "args": args_of(j), "cpus": j.get("cpus", 1), "env": j.get("env") or {}}, open(rp, "w"), indent=1)
        print("  %s: %s" % (k, x[:600]))
        if n < 5:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    single = sum(len(v) for v in ncrash.values()) if not rc else 0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": chk["rule"], "samples": samples,
                       "events_observed": counts, "processes_run": len(allr) + sum(r["retries"] for r in allr),
                       "unrepeated_ends": single, "builds": sorted({"%s/%s" % k for k in exes})},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct, %d processes, %.1f s%s" % (pid, tier, seed, evals, len(sigs), len(allr), time.time() - t0,
          ", %d end(s) that did not repeat" % single if single else ""))
    if not rc and errors:
        die("; ".join(errors[:3]))
    if not rc and (evals < chk.get("min_evals", 1) or len(sigs) < 2):
        die("too little was observed (%d evaluations, %d distinct)" % (evals, len(sigs)))
    sys.exit(rc)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        import checks
        todo = sorted({(j.get("variant", "std"), j["driver"]) for c in checks.CHECKS.values() for j in c["jobs"]})
        for v, d in todo:
            build(v, d)
        print("built %d drivers" % len(todo))
    elif a[:1] == ["--replay"]:
        r = json.load(open(a[1]))
        exe = build(r["variant"], r["driver"])
        tmp = tempfile.mkdtemp(prefix="verif.replay.")
        os.chmod(tmp, 0o711)
        bad = 0
        for i in range(5):
            x = execute(exe, r["args"], r["cpus"], 300, tmp, r["env"])
            b = x["fails"] or bad_end(x, {"driver": r["driver"]})
            print("run %d: %s" % (i, b or "no violation"))
            if b:
                bad = 1
                break
        shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(bad)
    elif len(a) == 1:
        main(a[0])
    else:
        sys.exit(__doc__)
