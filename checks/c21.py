"""C21: header visibility between crates follows the declared exports; CFG reads return what was written."""
import itertools, os, re, shutil, subprocess
import fsx, vk
LEVEL = "model_checking"
BASE = [None]
LIB = '#[cxx::bridge] mod ffi { extern "Rust" { fn f(x: &str) -> String; } }'


class Crate:
    """A node of a dependency graph: what its Cargo.toml and build.rs say."""
    def __init__(self, name, prefix=None, links=None, dirs=(), prefixes=(), xlinks=(), deps=(), pushed=False):
        self.name, self.prefix, self.links = name, prefix, links
        self.dirs, self.prefixes, self.xlinks, self.deps, self.pushed = tuple(dirs), tuple(prefixes), tuple(xlinks), tuple(deps), pushed

    # ---- what the documentation promises
    def parts(self):
        return comps(self.name if self.prefix is None else self.prefix)

    def error(self):
        if any(not d.startswith("/") for d in self.dirs):
            return "a relative directory is exported"
        if "" in self.prefixes:
            return "an empty prefix is exported"
        if self.links is None and (self.dirs or self.prefixes or self.xlinks):
            return "something is exported without a links key"
        ds = [d for d in self.deps if d.links is not None]
        for l in self.xlinks:
            if all(d.links != l for d in ds):
                return "%r is no links key of a dependency" % l
        for p in self.prefixes:
            if not any(within(d.parts(), p) for d in ds):
                return "%r is no prefix of a dependency" % p
        return None

    def exports(self, d):
        return d.links in self.xlinks or any(within(d.parts(), p) for p in self.prefixes)

    def own(self):
        return [self] + list(self.dirs)

    def published(self):
        out = self.own()
        for d in self.deps:
            if d.links is not None and self.exports(d):
                out += [x for x in d.published() if x not in out]
        return out

    def visible(self):
        out = self.own()
        for d in self.deps:
            if d.links is not None:
                out += [x for x in d.published() if x not in out]
        return out

    def all(self):
        out = [self]
        for d in self.deps:
            out += [x for x in d.all() if x not in out]
        return out

    def __repr__(self):
        f = [self.name] + ["%s=%r" % (k, getattr(self, k)) for k in ("prefix", "links", "dirs", "prefixes", "xlinks") if getattr(self, k) not in (None, ())]
        return " ".join(f) + (" -> [%s]" % "; ".join(map(repr, self.deps)) if self.deps else "")


def comps(p):
    return [c for c in p.split("/") if c not in ("", ".")]


def within(parts, p):
    return parts[:len(comps(p))] == comps(p)


# ---------------------------------------------------------------- running it

def home(c):
    return os.path.join(BASE[0], "crates", c.name)


def setup(c):
    h = home(c)
    if not os.path.isdir(h):
        for d in ("src", "include", "target/out"):
            os.makedirs(os.path.join(h, d))
        open(os.path.join(h, "target/CACHEDIR.TAG"), "w").close()
        with open(os.path.join(h, "src/lib.rs"), "w") as f:
            f.write(LIB)
        with open(os.path.join(h, "include/wow.h"), "w") as f:
            f.write("// of " + c.name)
        with open(os.path.join(h, "Cargo.toml"), "w") as f:
            f.write("[package]")


def real(d):
    """Labels of exported directories stand for real ones."""
    return os.path.join(BASE[0], "dirs", d[1:]) if d.startswith("/") else d


def script(c, meta):
    """Runs the script of c; meta(d) is what the one of a dependency printed. -> (exit, metadata, include dirs, output)"""
    setup(c)
    h = home(c)
    e = fsx.clean_env(CARGO_MANIFEST_DIR=h, OUT_DIR=h + "/target/out", CARGO_PKG_NAME=c.name, CXX=os.path.join(BASE[0], "fakecxx"), DEP_OTHER_ROOT="/nowhere", DEP_OTHER_CXXBRIDGE_DIRECTORY="/nowhere/1", CXXBRIDGE_DIR0="/nowhere/2")
    if c.links is not None:
        e["CARGO_MANIFEST_LINKS"] = c.links
    for d in c.deps:
        if d.links is not None:
            for k, v in meta(d):
                e["DEP_%s_%s" % (d.links.upper().replace("-", "_"), k.upper().replace("-", "_"))] = v
    a = []
    if c.prefix is not None:
        a.append("prefix=" + c.prefix)
    if c.pushed:
        a += ["+dirs=" + real(d) for d in c.dirs] + ["+prefixes=" + p for p in c.prefixes] + ["+links=" + l for l in c.xlinks]
    else:
        a += ["dirs=" + ",".join(map(real, c.dirs))] if c.dirs else []
        a += ["prefixes=" + ",".join(p or "{empty}" for p in c.prefixes)] if c.prefixes else []
        a += ["links=" + ",".join(c.xlinks)] if c.xlinks else []
    p = subprocess.run([os.path.join(BASE[0], "fe")] + a + ["bridge=src/lib.rs"], cwd=h, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    out = p.stdout.split("\n")
    md = [tuple(l[6:].split("=", 1)) for l in out if l.startswith("cargo:") and "=" in l]
    args = [l[4:] for l in out if l.startswith("ARG ")]
    inc = [args[i + 1] if x == "-I" else x[2:] for i, x in enumerate(args) if x.startswith("-I")]
    return p.returncode, md, inc, p.stderr


META = {}


def meta(c):
    if c not in META:
        META[c] = script(c, meta)
    return META[c][1] if META[c][0] == 0 else []


def classify(c, inc):
    """Include directories as crates and labels."""
    out, unknown = [], []
    dirs = os.path.join(BASE[0], "dirs") + "/"
    for i in inc:
        if i.startswith(dirs):
            out.append("/" + i[len(dirs):])
            continue
        for x in c.all():
            if i == home(x) or i.startswith(home(x) + "/"):
                out.append(x)
                break
        else:
            unknown.append(i)
    return out, unknown


def judge(c, res, bad):
    rc, md, inc, err = res
    want = c.error()
    if want:
        if rc == 0:
            bad.append("accepted although " + want)
        return
    if rc:
        bad.append("fails: " + " ".join(err.split())[-300:])
        return
    got, unknown = classify(c, inc)
    if unknown:
        bad.append("%s is on the include path" % unknown[0])
    # a directory of several dependencies; one of its own may be there again as that of a dependency
    twice = [x for i, x in enumerate(inc) if inc.count(x) > 1 + (x in map(real, c.dirs)) and x in inc[:i]]
    if twice:
        bad.append("%s is on the include path twice" % twice[0])
    vis = c.visible()
    for x in vis:
        if x not in got:
            bad.append("%s is not on the include path" % (x if isinstance(x, str) else "crate " + x.name))
    for x in got:
        if x not in vis:
            bad.append("%s is on the include path" % (x if isinstance(x, str) else "crate " + x.name))
    if bad:
        return
    first = [x for i, x in enumerate(got) if x not in got[:i]]
    if first[:len(c.own())] != c.own():
        bad.append("the include path is %s: not its own directories first" % names(first))
    # the directories of every crate in its own order, those that no other one has
    for d in c.all():
        if d not in vis:
            continue
        mine = [x for x in d.own() if x in first and not any(x in o.own() for o in c.all() if o is not d)]
        if [x for x in first if x in mine] != mine:
            bad.append("the include path has %s, against the order of %s" % (names(first), d.name))
            return
    # what an #include finds
    def find(rel):
        for i in inc:
            if os.path.isfile(os.path.join(i, rel)):
                return os.path.realpath(os.path.join(i, rel))
    if find("rust/cxx.h") is None:
        bad.append("rust/cxx.h is not found")
    for x in c.all():
        pre = "/".join(x.parts())
        pre = pre + "/" if pre else ""
        if any(y is not x and y.parts() == x.parts() for y in c.all()):
            continue
        for rel in ("src/lib.rs.h", "include/wow.h", "src/lib.rs"):
            f = find(pre + rel)
            if x in vis:
                if f is None or not f.startswith(os.path.realpath(home(x)) + "/"):
                    bad.append("#include \"%s\" finds %s" % (pre + rel, "nothing" if f is None else f))
            elif f is not None and f.startswith(os.path.realpath(home(x)) + "/"):
                bad.append("#include \"%s\" of a crate that is not visible finds %s" % (pre + rel, f))


def names(l):
    return [x if isinstance(x, str) else x.name for x in l]


def case(i):
    c = CASES[i]
    bad = []
    # those that others depend on have already run, and are in use
    res = META.get(c) or script(c, meta)
    judge(c, res, bad)
    n = 1
    if not bad and not c.error() and c.links is not None:
        # and what is published: seen by a crate that depends on it
        probe = Crate(c.name + "_user", deps=(c,))
        m = res[1]
        r2 = script(probe, lambda d: m)
        b2 = []
        judge(probe, r2, b2)
        bad += ["for a crate that depends on it, " + b for b in b2]
        n = 2
    return i, bad, n


CASES = []

L0 = Crate("crate0", links="l0")
L1 = Crate("one", prefix="group/api/crate1", links="group")
L2 = Crate("two", prefix="group//api/./crate2/", links="a-b", dirs=["/x"])
L3 = Crate("three", prefix="group/apix", links="l3", dirs=["/x", "/y"])
L4 = Crate("four", prefix="detail/crate4")
L5 = Crate("five", prefix="", links="l5", dirs=["/d%d" % i for i in range(12)])
L6 = Crate("six", prefix="crate0", links="l6", dirs=["/y", "/x"])
L7 = Crate("seven", prefix="group/api", links="x_cxxbridge_dir1")
L8 = Crate("eight", links="z-cxxbridge_links", prefix="Group/api")
LEAVES = [L0, L1, L2, L3, L4, L5, L6, L7, L8]


def cases(ck):
    out = list(LEAVES)
    # configurations of a leaf
    for links in (None, "ll"):
        for dirs in ([], ["/x"], ["/x", "/y"], ["/y", "/x"], ["rel"], ["/x", "rel/dir"], ["/x", "/x"]):
            if dirs == ["/x", "/x"]:
                continue   # twice what was given twice
            for prefix in (None, "", "a", "a/b", "a/../b"[:1]):
                for pre in ([], ["a"], [""]):
                    for xl in ([], ["ll"], ["nolink"]):
                        out.append(Crate("leaf", prefix, links, dirs, pre, xl, pushed=len(dirs) == 2))
    P = ["crate0", "group", "group/api", "group/api/crate1", "group/api/", "gro", "crate0/x", "detail", "Group", "none"]
    P2 = [("group", "group/api"), ("group/api", "group"), ("crate0", "group/api"), ("group", "crate0"), ("group/api/crate1", "group/api/crate2"), ("crate0", "none"), ("none", "crate0"), ("", "crate0"), ("crate0", "crate0")]
    X = ["l0", "group", "a-b", "A_B", "l5", "l6", "x_cxxbridge_dir1", "l4"]
    X2 = [("l0", "group"), ("group", "l0"), ("a-b", "l3"), ("l5", "l6"), ("l0", "none")]
    psets = [()] + [(p,) for p in P] + (P2 if ck.quick else list(itertools.permutations(P, 2)) + P2)
    xsets = [()] + [(x,) for x in X] + (X2 if ck.quick else list(itertools.permutations(X, 2)))
    dsets = [s for k in range(ck.pick(3, 4)) for s in itertools.combinations(LEAVES, k)]
    for ds in dsets:
        for ps in psets:
            for xs in xsets:
                c = Crate("user", None, "ul", (), ps, xs, ds)
                # of those that are refused for the same reason, a few are enough
                if c.error() and (ps and xs) and (len(ps) > 1 or len(xs) > 1 or ck.quick and len(ds) == 2):
                    continue
                if ck.quick and len(ds) == 2 and ps and xs and not (len(ps) == 1 and len(xs) == 1):
                    continue
                out.append(c)
        # the order of the dependencies, directories of its own, no links key
        out.append(Crate("user", None, "ul", ["/x"], (), (), ds))
        out.append(Crate("user", "", "ul", ["/z", "/y"], (), (), ds, pushed=True))
        out.append(Crate("user", "group/api", None, (), (), (), ds))
        out.append(Crate("user", None, None, (), ("crate0",), (), ds))
        out.append(Crate("user", None, None, (), (), ("l0",), ds))
    # two in the middle
    mids = []
    for nm in ("b", "c"):
        m = []
        for ds, ps, xs, dirs in [((), (), (), ()), ((L0,), (), (), ()), ((L0,), ("crate0",), (), ()), ((L0,), (), ("l0",), ("/x",)), ((L2, L3), (), (), ()), ((L2, L3), ("group/api",), (), ("/q",)), ((L2, L3), ("group",), (), ()), ((L2, L3), (), ("l3",), ()),
                                 ((L5,), (), ("l5",), ()), ((L0, L6), (), ("l6",), ()), ((L1, L7), ("group/api/crate1",), (), ("/y",)), ((L4, L0), ("crate0",), (), ())]:
            # each of them in a directory of its own
            m.append(Crate("%s%d" % (nm, len(m)), "group/%s" % nm, nm + "l", dirs, ps, xs, ds))
        mids.append(m)
    for b in mids[0]:
        for c in mids[1]:
            for more in ((), (L0,)) if ck.quick else ((), (L0,), (L3,), (L5, L2)):
                for ps, xs in ((), ()), ((), ("bl",)), ((), ("cl",)), (("group/b",), ("cl",)), (("group/c",), ()), (("group",), ()), (("crate0",), ("bl",)):
                    out.append(Crate("top", None, "tl", (), ps, xs, (b, c) + more))
                    if not ck.quick:
                        out.append(Crate("top", None, "tl", ("/x",), ps, xs, more + (c, b)))
    # a chain
    for k in range(8):
        a = Crate("ch0", "chain/a", "cha", ["/p"], (), (), ())
        b = Crate("ch1%d" % (k & 1), "chain/b", "chb", ["/q"], ("chain/a",) if k & 1 else (), (), (a,))
        c = Crate("ch2%d" % (k & 3), "chain/c", "chc", ["/r"], (), ("chb",) if k & 2 else (), (b,))
        d = Crate("ch3%d" % k, "chain/d", "chd", ["/s"], ("chain",) if k & 4 else (), (), (c,))
        out += [a, b, c, d, Crate("ch4", "chain/e", "che", [], ("chain",), (), (d,)), Crate("ch5", None, None, (), (), (), (d, a))]
    # every case has a directory of its own while it runs
    for i, c in enumerate(out):
        if c.name in ("leaf", "user", "top"):
            c.name = "%s%d" % (c.name, i)
    return out


# ---------------------------------------------------------------- CFG histories
OPS = ["prefix=a", "prefix=b/c", "prefix=", "dirs=/x", "dirs=/x,/y", "+dirs=/z", "popdirs", "dirs=", "prefixes=p,q", "+prefixes=r", "links=l", "+links=m", "t+links=n", "tprefix=t", "doxygen=1", "doxygen=0", "show", "get", "tget"]


def q(s):
    return '"%s"' % s


def lst(l):
    return "[%s]" % ", ".join(map(q, l))


def predict(ops):
    s = dict(prefix="pkg", dirs=[], prefixes=[], links=[], doxygen=False)
    out = []
    for o in ops:
        k, _, v = o.partition("=")
        k = k.lstrip("t") if k in ("tprefix", "t+links") else k
        if k == "prefix":
            s["prefix"] = v
        elif k in ("dirs", "prefixes", "links"):
            s[k] = [x for x in v.split(",") if x]
        elif k[0] == "+":
            s[k[1:]] = s[k[1:]] + [v]
        elif k == "popdirs":
            s["dirs"] = s["dirs"][:-1]
        elif k == "doxygen":
            s["doxygen"] = v == "1"
        dox = "true" if s["doxygen"] else "false"
        if k == "show":
            out.append("Cfg { include_prefix: %s, exported_header_dirs: %s, exported_header_prefixes: %s, exported_header_links: %s, doxygen: %s }" % (q(s["prefix"]), lst(s["dirs"]), lst(s["prefixes"]), lst(s["links"]), dox))
        elif k in ("get", "tget"):
            out.append("GET %s %s %s %s %s" % (q(s["prefix"]), lst(s["dirs"]), lst(s["prefixes"]), lst(s["links"]), dox))
    return out + ["DONE"]


def history(ops):
    # reads at the end, in every way
    n, bad = 0, None
    e = fsx.clean_env(CARGO_PKG_NAME="pkg")
    ops = list(ops) + ["get", "show", "tget"]
    p = subprocess.run([os.path.join(BASE[0], "fe")] + ops, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    want = predict(ops)
    got = p.stdout.split("\n")[:-1]
    if p.returncode or got != want:
        i = next((i for i, (a, b) in enumerate(zip(got + [""], want + [""])) if a != b), 0)
        bad = "after %s: %s" % (" ".join(ops), "ends with %d: %s" % (p.returncode, p.stderr[-200:]) if p.returncode else "%s, expected %s" % ((got + ["nothing"])[i], (want + ["nothing"])[i]))
    return bad


def run(ck):
    base = BASE[0] = fsx.prepare(ck)
    try:
        src = os.path.join(base, "fakecxx.c")
        with open(src, "w") as f:
            f.write('#include <stdio.h>\nint main(void) { puts("#pragma message \\"gcc\\"\\ngcc"); return 0; }\n')
        rc, so, se = vk.run(["gcc", "-O1", "-o", os.path.join(base, "fakecxx"), src])
        if rc:
            raise AssertionError(se)
        for d in ("crates", "dirs"):
            os.makedirs(os.path.join(base, d))
        CASES.extend(cases(ck))
        # names of the directories of dependencies are shared: they are made before
        os.chmod(os.path.join(base, "crates"), 0o777)
        os.chmod(os.path.join(base, "dirs"), 0o777)
        pool = None
        try:
            deps = []
            for c in CASES:
                for d in c.all()[1:]:
                    if d not in deps:
                        deps.append(d)
            # leaves first
            order = []
            for d in deps:
                for x in reversed(d.all()):
                    if x not in order:
                        order.append(x)
            DEPS.extend(order)
            metas = {}
            pool = fsx.Pool(base, first, 1)
            for i, m in pool.imap(dep, range(len(DEPS))):
                metas[i] = m
            pool.close()
            for i, m in metas.items():
                META[DEPS[i]] = m
            pool = fsx.Pool(base, first)
            n = errors = 0
            shapes = set()
            for i, bad, k in pool.imap(case, range(len(CASES)), 16):
                n += k
                c = CASES[i]
                errors += bool(c.error())
                shapes.add((tuple(names(c.visible())[1:]), tuple(names(c.published())[1:]), c.error()) if c.deps else (c.error(), repr(c.parts()), c.dirs))
                for b in bad[:2]:
                    ck.violation("crate %r: %s" % (c, b), "%r\n%s\nexpected include path: %s\nexpected to be published: %s" % (c, b, names(c.visible()), names(c.published())))
            ck.log("%d crates, %d of them wrong configurations, %d runs" % (len(CASES), errors, n))
            ck.count("states", len(shapes))
            for c in CASES[::max(1, len(CASES) // 5)]:
                ck.sample("%r: %s" % (c, c.error() or "include path " + ", ".join(names(c.visible()))))
            h = 0
            hs = [x for k in range(1, ck.pick(4, 5)) for x in itertools.product(OPS, repeat=k)]
            for bad in pool.imap(history, hs, 32):
                h += 1
                if bad:
                    ck.violation("configuration " + bad, bad)
            ck.log("%d histories of the configuration" % h)
            ck.sample("CFG histories such as %s" % " ".join(hs[-7]))
        finally:
            if pool:
                pool.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    ck.count("states", h)
    ck.count("transitions", n + h)
    ck.count("traces_validated_against_impl", n + h)
    ck.cov["rule"] = "every dependency graph and configuration of a bounded set, the real scripts run in dependency order with the environment Cargo would give them; states are the different outcomes and the histories of CFG"
    ck.assumptions.append("links keys are unique, also after Cargo has made environment names of them")


DEPS = []


def first(w):
    pass


def dep(i):
    meta(DEPS[i])
    return i, META[DEPS[i]]
