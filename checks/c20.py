"""C20: every crash point and every failing file operation of a build script, from every state such runs leave behind."""
import hashlib, os, shutil
import fsx, vk
LEVEL = "fault_enumeration"
SRC = {
    "v1": '#[cxx::bridge] mod ffi { extern "Rust" { fn f(x: &str) -> String; type R; } unsafe extern "C++" { include!("p/include/x.h"); fn g(x: u8); } }',
    "v2": '#[cxx::bridge] mod ffi { struct S { x: u8 } extern "Rust" { fn f(s: S); } }',
}
BASE = {"p": ("d",), "p/Cargo.toml": ("f", b"[package]"), "p/src": ("d",), "p/src/lib.rs": ("f", SRC["v1"].encode()), "p/src/other.rs": ("f", b'#[cxx::bridge(namespace = "o")] mod ffi { unsafe extern "C++" { include!("x.h"); fn h(); } }'),
        "p/src/keep.txt": ("f", b"keep"), "p/include": ("d",), "p/include/x.h": ("f", b"void g(unsigned char);"), "p/link": ("l", "src"), "p/src/deep": ("d",), "p/src/deep/m.rs": ("f", b'#[cxx::bridge] mod ffi { extern "Rust" { fn m(); } }'),
        "q": ("d",), "q/lib.rs": ("f", b'#[cxx::bridge] mod ffi { extern "Rust" { fn q(); } }'), "q/sub": ("d",), "registry": ("d",), "registry/cxx.h": ("f", b"// the header of another version\n" * 50),
        "target": ("d",), "target/CACHEDIR.TAG": ("f", b""), "target/debug": ("d",), "target/debug/out": ("d",), "target/debug/out/other.txt": ("f", b"of the script itself"), "target/debug/other": ("d",), "target/debug/other/x": ("f", b"of another crate"), "away": ("d",), "away/out": ("d",)}
OUT = "target/debug/out"
E0 = dict(CARGO_MANIFEST_DIR="@/p", OUT_DIR="@/" + OUT, CARGO_PKG_NAME="p")


class Config:
    def __init__(self, name, args, rels, prefix="p", version="v1", out=OUT, shared="target/cxxbridge", cwd="@/p", **env):
        self.name, self.version, self.cwd, self.rels, self.prefix, self.out, self.shared = name, version, cwd, rels, prefix, out, shared
        self.env = fsx.clean_env(**{**E0, **env})
        self.args = ["noargs"] + args

    def needed(self):
        """What the compiler is going to read."""
        p = self.prefix + "/" if self.prefix else ""
        return [self.out + "/cxxbridge/include/rust/cxx.h"] + [self.out + "/cxxbridge/%s/%s%s%s" % (d, p, r, x) for r in self.rels for d, x in (("include", ".h"), ("sources", ".cc"))]


L = ["src/lib.rs"]
CONFIGS = [
    Config("plain", ["bridge=src/lib.rs"], L),
    Config("edited", ["bridge=src/lib.rs"], L, version="v2"),
    Config("two", ["bridge=src/lib.rs,src/other.rs"], L + ["src/other.rs"]),
    Config("prefix a", ["prefix=a", "bridge=src/lib.rs"], L, "a"),
    Config("prefix a/src", ["prefix=a/src", "bridge=src/lib.rs"], L, "a/src"),
    Config("no prefix", ["prefix=", "bridge=src/lib.rs"], L, ""),
    Config("header", ["bridge=src/lib.rs"], L, DEP_CXXBRIDGE1_HEADER="@/registry/cxx.h"),
    Config("target dir", ["bridge=src/lib.rs"], L, CARGO_TARGET_DIR="@/target"),
    Config("absolute", ["bridge=@/p/src/lib.rs"], ["{root}/p/src/lib.rs"]),
    Config("sibling", ["bridge=../q/lib.rs"], ["q/lib.rs"]),
    Config("through a link", ["bridge=link/lib.rs"], ["link/lib.rs"]),
    Config("dots", ["bridge=./src/deep/../../src//lib.rs"], L),
    Config("two calls", ["bridge=src/lib.rs", "prefix=b/c", "bridge=src/deep/m.rs"], L),
    Config("doxygen", ["doxygen=1", "bridge=src/lib.rs"], L),
    Config("prefix p/src/deep", ["prefix=p/src/deep", "bridge=src/lib.rs"], L, "p/src/deep"),
    Config("two prefixes", ["prefix=a", "bridge=src/lib.rs", "prefix=a/src", "bridge=src/lib.rs"], L, "a/src"),
    Config("dotted prefix", ["prefix=./a/./b/", "bridge=src/lib.rs"], L, "a/b"),
    Config("include of the crate", ["prefix=p/include", "bridge=src/lib.rs"], L, "p/include"),
]
NAMES = [c.name for c in CONFIGS]
ERRNO = {"EACCES": 13, "ENOSPC": 28, "EIO": 5, "ENOENT": 2, "EINTR": 4, "EMFILE": 24, "EROFS": 30}
FRESH = {}   # config -> (tree, output)


def strip(t):
    return {k: v for k, v in t.items() if not (k == "target" or k.startswith("target/"))}


def allowed(c, p):
    return any(p == d or p.startswith(d + "/") for d in ("@/" + c.out + "/cxxbridge", "@/" + c.shared))


def digest(t):
    h = hashlib.sha1()
    for k in sorted(t):
        h.update(repr((k, t[k])).encode())
    return h.hexdigest()


def with_version(t, v):
    t = dict(t)
    t["p/src/lib.rs"] = ("f", SRC[v].encode())
    return t


def lines(out, root):
    return [l for l in out.split("\n") if l.startswith(("cargo:", "BUILD", "DONE"))]


def init(w):
    """Every worker learns what a fresh run leaves."""
    for c in CONFIGS:
        c.rels = [r.replace("{root}", w.root[1:]) for r in c.rels]
        w.restore(with_version(BASE, c.version))
        r = w.run([(c.cwd, c.env, c.args)])
        FRESH[c.name] = (rel(w, w.tree()), lines(r["out"][0], w.root), r["exits"].get(0), r["out"][0][-400:], len(r["ops"]), [o for o in r["ops"] if o[2] >= 0])


def rel(w, t):
    """Names below the root directory spelled the same by every worker."""
    n = os.path.basename(w.top)
    return {k.replace(n, "w%"): ("l", v[1].replace(n, "w%")) if v[0] == "l" else v for k, v in t.items()}


def unrel(w, t):
    n = os.path.basename(w.top)
    return {k.replace("w%", n): ("l", v[1].replace("w%", n)) if v[0] == "l" else v for k, v in t.items()}


def put(w, state, c):
    w.restore(unrel(w, with_version(state, c.version)))


def problems(w, c, before, res, after, fault, used):
    """What is wrong after one run."""
    bad = []
    for o in res["ops"]:
        if o[2] >= 0 and not o[6].startswith("-") and o[6] != "killed" and not allowed(c, o[4]):
            bad.append(("outside", "%s of %s" % (o[3], o[4])))
    a, b = strip(after), strip(with_version(before, c.version))
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            bad.append(("project", "%s is %s" % (k, "changed" if k in a and k in b else "gone" if k in b else "new")))
    for k in BASE:
        if k.startswith("target") and after.get(k) != BASE[k]:
            bad.append(("project", "%s is changed or gone" % k))
    fresh, flines, fexit, fout = FRESH[c.name][:4]
    x = res["exits"].get(0)
    out = res["out"][0]
    if fault is None:
        if x != 0:
            bad.append(("fails", "it ends with %s: %s" % (x, out[-300:])))
            return bad
        for k, v in fresh.items():
            if after.get(k) != v:
                bad.append(("converge", "%s is %s" % (k, "missing" if k not in after else "not what a fresh run leaves: %r" % (after[k][1][:80] if len(after[k]) > 1 else after[k],))))
                break
        ok = set(fresh)
        for u in used:
            ok |= set(FRESH[u][0]) if u in FRESH else set()
        extra = sorted(k for k in after if k not in ok and k not in used.get("*", ()))
        if extra:
            bad.append(("extra", "%s is left behind" % extra[0]))
        if lines(out, w.root) != flines:
            bad.append(("output", "it prints %s instead of %s" % (lines(out, w.root), flines)))
    elif "kill" in fault[2] or "torn" in fault[2]:
        pass
    else:
        if x is None or x < 0:
            bad.append(("signal", "it ends with signal %s: %s" % (x, out[-300:])))
        elif x == 0:
            for k in c.needed():
                kk = k.replace(os.path.basename(w.top), "w%")
                want = fresh.get(kk)
                if kk.endswith("rust/cxx.h"):
                    want = ("f", HEADER(c))
                if w.resolve(k) != want[1]:
                    bad.append(("incomplete", "it reports success, but %s is %s" % (k, "missing" if w.resolve(k) is None else "wrong")))
                    break
            if "DONE" not in out:
                bad.append(("incomplete", "it reports success without coming to its end"))
        elif x != 0 and not out.strip():
            bad.append(("silent", "it ends with %s and says nothing" % x))
    return bad


def HEADER(c):
    if "DEP_CXXBRIDGE1_HEADER" in c.env:
        return BASE["registry/cxx.h"][1]
    return FRESH["plain"][0]["target/cxxbridge/rust/cxx.h"][1]


def case(a):
    """One transition: (state, used, config index, fault or list of faults) -> problems, state after."""
    sid, state, used, ci, faults = a
    w, c = fsx.W, CONFIGS[ci]
    put(w, state, c)
    res = w.run([(c.cwd, c.env, c.args)], faults)
    t = rel(w, w.tree())
    bad = problems(w, c, state, res, t, faults[-1] if faults else None, used)
    twice = None
    if not faults and used.get("again"):
        s = w.stamps()
        r2 = w.run([(c.cwd, c.env, c.args)])
        s2, t2 = w.stamps(), rel(w, w.tree())
        if t2 != t:
            bad.append(("again", "a second run changes %s" % sorted(k for k in set(t) | set(t2) if t.get(k) != t2.get(k))[0]))
        elif s != s2:
            bad.append(("again", "a second run rewrites %s" % sorted(k for k in set(s) | set(s2) if s.get(k) != s2.get(k))[0]))
        if r2["exits"].get(0) != 0:
            bad.append(("fails", "a second run ends with %s: %s" % (r2["exits"].get(0), r2["out"][0][-300:])))
    return sid, ci, faults, bad, t, len(res["ops"]), [o[2:5] + (o[6],) for o in res["ops"] if o[2] >= 0]


def operations(a):
    """How many operations and which modifying ones a run of a config from a state has."""
    sid, state, ci = a
    w, c = fsx.W, CONFIGS[ci]
    put(w, state, c)
    res = w.run([(c.cwd, c.env, c.args)])
    return sid, ci, len(res["ops"]), [(o[2], o[3], o[6]) for o in res["ops"] if o[2] >= 0]


def occupied(fresh):
    """States in which something else is in the place of an output."""
    out = {}
    for k, v in fresh.items():
        if k in BASE:
            continue
        par = k.rsplit("/", 1)[0]
        for kind in ("file", "directory", "full directory", "dangling link", "link to a file", "link to a directory", "same file behind a link"):
            t = dict(BASE)
            for d in [par[:i] for i, ch in enumerate(par) if ch == "/"] + [par]:
                t.setdefault(d, ("d",))
            if kind == "file":
                t[k] = ("f", b"something else")
            elif kind == "directory":
                t[k] = ("d",)
            elif kind == "full directory":
                t[k], t[k + "/x"], t[k + "/y"] = ("d",), ("f", b"x"), ("l", "@/p/src")
            elif kind == "dangling link":
                t[k] = ("l", "@/nowhere/at/all")
            elif kind == "link to a file":
                t[k] = ("l", "@/p/src/keep.txt")
            elif kind == "link to a directory":
                t[k] = ("l", "@/p/src")
            elif v[0] == "f":
                t[k] = ("l", "@/registry/same")
                t["registry/same"] = v
            else:
                continue
            out["%s: %s" % (k, kind)] = (t, k, kind)
    return out


def explore(ck, pool):
    n = dict(states=0, transitions=0)
    idx = {c: i for i, c in enumerate(NAMES)}

    def report(ci, faults, bad, hist):
        for kind, what in bad[:3]:
            f = "; ".join("%s at %s operation %d%s" % (f[2], "modifying" if f[0] == "F" else "file", f[1], " (%d)" % f[3] if f[3] else "") for f in faults) or "no fault"
            ck.violation("build script \"%s\" (%s) after [%s]: %s" % (NAMES[ci], f, ", ".join(hist) or "nothing", what), "%s\nhistory: %s\nconfig: %s %s\nfaults: %s" % (what, hist, CONFIGS[ci].args, CONFIGS[ci].env, faults), key="%s:%s" % (kind, NAMES[ci].replace(" ", "_")))

    def describe(ci, faults):
        return NAMES[ci] + "".join(" %s@%s%d" % (f[2], "" if f[0] == "F" else "q", f[1]) for f in faults)
    # fresh runs
    for c in CONFIGS:
        f = FRESH[c.name]
        if f[2] != 0:
            ck.violation("a fresh run of \"%s\" ends with %s: %s" % (c.name, f[2], f[3]), f[3])
            return n
        for k in c.needed():
            kk = k
            if kk.endswith("rust/cxx.h"):
                continue
            if f[0].get(kk, ("",))[0] != "f":
                ck.violation("a fresh run of \"%s\" does not write %s" % (c.name, kk), "\n".join(sorted(f[0])), key="fresh:" + c.name.replace(" ", "_"))
                return n
    seen = {digest(BASE): ("", BASE)}
    frontier = [(BASE, {}, [])]
    # per level: configurations that are killed, that fail, with which errors, torn sizes, that run to their end; only after these
    A = range(len(CONFIGS))
    I = lambda *x: [idx[y] for y in x]
    core = I("plain", "edited", "header", "prefix a", "prefix a/src")
    plan = ck.pick([(A, core, ["EACCES", "ENOSPC"], [0, 1, -1], A, None), (core[:2], [], [], [1], A, ("plain", "edited", "header", "prefix a/src")), ([], [], [], [], core, None)],
                   [(A, A, list(ERRNO), [0, 1, 7, -1], A, None), (core, core[:2], ["ENOSPC"], [0, -1], A, None), ([], [], [], [], core[:3], None)])
    for level, (killers, failers, errnos, torn, cleans, only) in enumerate(plan):
        ids = {i: s for i, s in enumerate(frontier)}
        # how long each run is from each state
        jobs = [(i, s[0], ci) for i, s in ids.items() if not only or set(s[1]) <= set(only) for ci in sorted(set(killers) | set(failers))]
        work = []
        for i, s in ids.items():
            for ci in cleans:
                work.append((i, s[0], {**s[1], "again": level == 0}, ci, []))
        for i, ci, nop, mods in pool.imap(operations, jobs, 8):
            s = ids[i]
            used = s[1]
            if ci in killers:
                for j, name, ret in mods:
                    if ret.startswith("-"):
                        continue   # it has no effect: dying before it is dying before the next
                    work.append((i, s[0], used, ci, [("F", j, "kill", 0)]))
                    if name == "write":
                        work += [(i, s[0], used, ci, [("F", j, "torn", z)]) for z in torn]
                        work += [(i, s[0], used, ci, [("F", j, "short", z)]) for z in torn if z]
            if ci in failers:
                for j in range(nop):
                    work += [(i, s[0], used, ci, [("Q", j, "err", ERRNO[e])]) for e in errnos]
                if not ck.quick and level == 0:
                    # a failure and then the end
                    work += [(i, s[0], used, ci, [("F", j, "err", 28), ("F", k, "kill", 0)]) for j, nm, r in mods for k in range(j + 1, len(mods) + 4)]
        nxt = []
        for i, ci, faults, bad, t, nop, mods in pool.imap(case, work, 16):
            n["transitions"] += 1
            s = ids[i]
            if bad:
                report(ci, faults, bad, s[2])
            d = digest(t)
            if d not in seen:
                h = s[2] + [describe(ci, faults)]
                seen[d] = h
                if not bad:
                    nxt.append((t, {**{k: v for k, v in s[1].items() if k != "again"}, NAMES[ci]: 1}, h))
        ck.log("level %d: %d states, %d runs, %d new states" % (level, len(frontier), len(work), len(nxt)))
        frontier = nxt
        if len(ck_violations(ck)) > 200:
            break
    # things in the way
    work, what = [], {}
    for ci in ck.pick(core, A):
        for name, (t, k, kind) in occupied(FRESH[NAMES[ci]][0]).items():
            what[len(work)] = (name, k, kind)
            work.append((len(work), t, {"*": set(t)}, ci, []))
    for i, ci, faults, bad, t, nop, mods in pool.imap(case, work, 16):
        n["transitions"] += 1
        name, k, kind = what[i]
        before = work[i][1]
        # what stands in the way of a directory is the user's to clear; elsewhere it is replaced
        isdir = FRESH[NAMES[ci]][0][k][0] == "d"
        for kd, w in bad:
            if kd in ("converge", "extra", "output", "again") and (isdir or kind == "same file behind a link"):
                continue
            if kd == "fails" and isdir:
                continue
            if kd == "outside" and isdir and "link" in kind:
                kd = "through"
                if kind == "link to a directory" or kind == "dangling link":
                    # the user redirected a directory of the output
                    continue
            if kd == "project" and isdir and kind == "link to a directory":
                continue
            report(ci, faults, [(kd, w)], ["%s is in the way" % name])
        seen.setdefault(digest(t), name)
    ck.log("%d states with something in the way" % len(work))
    n["states"] = len(seen)
    ck.cov["samples"] = [h if isinstance(h, str) else " -> ".join(h) for h in list(seen.values())[1::max(1, len(seen) // 12)] if h]
    return n


ROOT1 = [""]


def ck_violations(ck):
    return getattr(ck, "violations", [])


def run(ck):
    base = fsx.prepare(ck)
    try:
        # the parent needs the fresh trees too: ask one worker
        pool = fsx.Pool(base, init)
        try:
            fresh, ROOT1[0] = pool.map(tell, [0])[0]
            FRESH.update(fresh)
            for c in CONFIGS:
                c.rels = [r.replace("{root}", ROOT1[0]) for r in c.rels]
            n = explore(ck, pool)
        finally:
            pool.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ck.count("evaluations", n["transitions"])
    ck.count("distinct_nontrivial", n["states"])
    ck.count("states", n["states"])
    ck.count("transitions", n["transitions"])
    ck.cov["rule"] = "breadth first over what is on disk: from every state reached by runs that were killed before any modifying operation, torn in any write or failed in any file operation, every one of %d configurations runs to its end and has to leave what a fresh run leaves" % len(CONFIGS)
    ck.assumptions.append("a script dies between system calls or within a write; the kernel keeps what was written (no power loss)")
    ck.assumptions.append("inputs of one call that differ only by leading .. components are written to one place, and are not given together; include_prefix has no .. component")


def tell(_):
    return FRESH, fsx.W.root[1:].replace(os.path.basename(fsx.W.top), "w%")
