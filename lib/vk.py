"""Common machinery of the checks: environment, builds, job pool, evidence."""
import json, os, re, shutil, struct, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
EV = os.path.join(ROOT, "evidence")
TARGET = os.path.join(ROOT, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
NCPU = os.cpu_count() or 4


class Violation(Exception):
    def __init__(self, what, artifact=None):
        super().__init__(what)
        self.what = what
        self.artifact = artifact if artifact is not None else what


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_FEATURE_", "DEP_")) or k in (
                "RUSTFLAGS", "CXX", "CXXFLAGS", "CC", "CFLAGS", "CARGO_TARGET_DIR", "TRYBUILD",
                "RUST_BACKTRACE", "TERM", "OUT_DIR", "CARGO_MANIFEST_DIR", "RUSTC", "TARGET", "HOST"):
            e.pop(k)
    home = e.setdefault("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly-2025-04-08"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUST_BACKTRACE="0", LC_ALL="C.UTF-8", CARGO_TARGET_DIR=TARGET,
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:handle_abort=0:disable_coredump=1",
             UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
    return e


class Check:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
        try:
            os.unlink(os.path.join(EV, prop + ".json"))
        except FileNotFoundError:
            pass
        self.findings = load_findings(prop)

    quick = property(lambda s: s.tier != "thorough")

    def pick(self, q, t):
        return q if self.quick else t

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, self.elapsed()), *a, flush=True)

    def violation(self, what, artifact=None, key=None):
        """Report a violation, unless `key` is a recorded finding."""
        if key is not None and key in self.findings:
            if key not in self.known:
                self.known.append(key)
            return
        self.violations.append((what, artifact if artifact is not None else what))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s, cap=6):
        l = self.cov.setdefault("samples", [])
        if len(l) < cap:
            l.append(s)

    def finish(self):
        for k, what in self.findings.items():
            # a listed finding is printed whenever it was seen again
            if k in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        self.cov.setdefault("samples", [])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, wall_s=round(self.elapsed(), 2),
                  violations=len(self.violations), assumptions=self.assumptions)
        tmp = os.path.join(EV, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EV, self.prop + ".json"))
        shutil.rmtree(self.work, ignore_errors=True)
        rc = 0
        for i, (what, art) in enumerate(self.violations[:int(os.environ.get("VK_SHOW", 8))]):
            p = os.path.join(EV, "replay", "%s-%d.txt" % (self.prop, i))
            with open(p, "w", errors="replace") as f:
                f.write(art if isinstance(art, str) else json.dumps(art, indent=1))
                f.write("\n")
            self.log("violation:", what[:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            rc = 1
        if rc == 0:
            self.log("held:", {k: v for k, v in self.cov.items() if k != "samples" and not isinstance(v, (list, dict))})
        return rc


def load_findings(prop):
    """known-findings.txt: `known: property=<id> key=<key> <text>` / `fixed: ...`."""
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m[1] == prop:
                out[m[2]] = m[3].strip()
    return out


def run(cmd, env=None, cwd=None, timeout=600, input=None, text=True):
    try:
        p = subprocess.run(cmd, env=env or base_env(), cwd=cwd, timeout=timeout, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=text,
                           errors="replace" if text else None)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        z = "" if text else b""
        o = e.stdout or z
        if text and isinstance(o, bytes):
            o = o.decode(errors="replace")
        return -999, o, z


def pool(n=NCPU):
    return ThreadPoolExecutor(n)


def cargo_build(ck, crate, args=(), env=None, asan=False, target=None, what="harness"):
    """Builds a crate of /verif against /repo; a failure to build is a violation:
    the harness uses only documented API and builds on the unchanged tree."""
    e = base_env()
    e.update(env or {})
    cmd = ["cargo", "build", "--offline", "--locked", "--message-format=short"] + list(args)
    if asan:
        e["CXXFLAGS"] = "-fsanitize=address -fno-omit-frame-pointer"
        e["RUSTFLAGS"] = "-Zpre-link-args=-lasan"
        target = TRIPLE
    if target:
        cmd += ["--target", target]
    t = time.time()
    rc, out, err = run(cmd, env=e, cwd=os.path.join(ROOT, crate), timeout=800)
    ck.log("built %s %s in %.1fs rc=%d" % (crate, " ".join(args), time.time() - t, rc))
    if rc != 0:
        lines = [l for l in err.splitlines() if "error" in l.lower()]
        raise Violation("%s does not build against this tree: %s" % (what, " | ".join(lines[:4])[:1500]),
                        " ".join(cmd) + "\n" + err[-20000:])
    d = os.path.join(e["CARGO_TARGET_DIR"], target or "", "debug")
    return d


def describe_exit(rc, err):
    m = re.search(r"(==\d+==ERROR: .*|.*runtime error:.*|panicked at .*|terminate called.*)", err)
    d = m.group(0).strip() if m else err.strip()[-300:]
    if rc == -14:
        d = "did not terminate (watchdog) " + d
    return "process ended with %s: %s" % (rc, d)


def explore(ck, binary, jobs, secs):
    """jobs: list of (system, [bfs ..]|[dfs ..]); runs them in parallel and folds
    the results into the evidence."""
    end = time.time() + secs
    def one(i_job):
        i, (sysname, mode) = i_job
        secs = max(5, int(end - time.time()))
        out = os.path.join(ck.work, "r%d.json" % i)
        tr = os.path.join(ck.work, "t%d" % i)
        cmd = [binary, "explore", sysname, out, tr, str(secs)] + [str(x) for x in mode]
        rc, so, se = run(cmd, timeout=secs + 200)
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out))
        else:
            d = open(tr, "rb").read() if os.path.exists(tr) else b"\0\0"
            n = struct.unpack_from("<H", d)[0] if len(d) >= 2 else 0
            ops = list(struct.unpack_from("<%dH" % n, d, 2)) if n else []
            names = run([binary, "names", sysname] + [str(x) for x in ops])[1].strip()
            r = dict(states=0, transitions=0, runs=0, max_depth=0, exhausted=False, samples=[],
                     violation=dict(ops=ops, trace=names, msg=describe_exit(rc, se), stderr=se[-6000:]))
        r["sys"], r["mode"] = sysname, mode
        return r
    with pool() as p:
        res = list(p.map(one, enumerate(jobs)))
    per = ck.cov.setdefault("per_system", [])
    for r in res:
        ck.count("states", r["states"])
        ck.count("transitions", r["transitions"])
        ck.count("traces_validated_against_impl", r["runs"])
        per.append({k: r[k] for k in ("sys", "mode", "states", "transitions", "runs", "max_depth", "exhausted")})
        for s in r["samples"][:1]:
            ck.sample("%s: %s" % (r["sys"], s))
    bad = [r for r in res if "violation" in r]
    bad.sort(key=lambda r: len(r["violation"]["ops"]))
    seen = set()
    for r in bad:
        v = r["violation"]
        sig = re.sub(r"0x[0-9a-f]+|==\d+==", "", v["msg"])
        if sig in seen:
            continue
        seen.add(sig)
        ck.violation("%s: after [%s]: %s" % (r["sys"], v["trace"], v["msg"]),
                     "system: %s\nhistory: %s\nop indices: %s\nresult: %s\nreplay: %s replay %s %s\n%s" % (
                         r["sys"], v["trace"], v["ops"], v["msg"], binary, r["sys"],
                         " ".join(map(str, v["ops"])), v.get("stderr", "")),
                     key="%s:%s" % (r["sys"], hashlib.sha1(v["msg"].encode()).hexdigest()[:10]))
    return res


def systems(binary):
    rc, so, se = run([binary, "list"])
    if rc:
        raise Violation("explorer does not start: " + describe_exit(rc, se))
    return [(l.rsplit(" ", 1)[0], int(l.rsplit(" ", 1)[1])) for l in so.splitlines()]


def dfs_depth(nops, budget, cap=8):
    d = 1
    while d < cap and nops ** (d + 1) <= budget:
        d += 1
    return d


def rt_check(ck, feature, quick_budget=400_000, thorough_budget=60_000_000, bfs_q=6000, bfs_t=300_000,
             secs_q=60, secs_t=700):
    d = cargo_build(ck, "rt", ["--features", feature], asan=True)
    b = os.path.join(d, "rt")
    jobs = []
    for s, n in systems(b):
        jobs.append((s, ["bfs", max(200, min(ck.pick(bfs_q, bfs_t), ck.pick(500_000, 20_000_000) // n)), 60]))
        depth = dfs_depth(n, ck.pick(quick_budget, thorough_budget))
        sh = max(1, min(8, n ** depth // 20_000))
        for k in range(sh):
            jobs.append((s, ["dfs", depth, k, sh]))
    explore(ck, b, jobs, ck.pick(secs_q, secs_t))
